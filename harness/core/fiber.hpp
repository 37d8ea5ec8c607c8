// Cooperative fibers: several library instances interleaved in one thread by
// the simulator's scheduler.
#pragma once
#include <functional>
#include <memory>
#include <vector>
#include <exception>
struct FiberImpl;
class Fibers {
public:
    Fibers(); ~Fibers();
    int spawn(std::function<void()> f);      // returns index
    void resume(int i);                       // run fiber i until it yields or ends
    bool done(int i) const;
    static void yield();                      // called from inside a fiber
    static int current();                     // -1 outside
    void rethrow(int i);
private:
    std::vector<FiberImpl*> f_;
};
