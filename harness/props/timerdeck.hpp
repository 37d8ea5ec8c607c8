// Step schedules, given to a timer by parameters or through a deck.
#pragma once
#include "props/world.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <boost/date_time/gregorian/gregorian.hpp>

inline dvec drawSteps(Sim& s, bool varying) {
    dvec v(size_t(s.chance(1, 12) ? s.range(10, 40) : s.range(1, 7)));
    const int scale = int(s.choose(4)); const double base = 86400 * (scale == 0 ? 1.0 : scale == 1 ? s.real(0.001, 2) : scale == 2 ? s.range(1, 400) : s.range(1000, 60000));
    for (double& x : v) x = varying ? base * s.range(1, 40) / 8 : base;
    return v;
}
inline boost::gregorian::date drawDate(Sim& s, std::string* text) {
    static const char* mon[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"};
    const int y = s.range(1950, 2040), m = s.range(1, 12), d = s.range(1, 28);
    *text = std::to_string(d) + " '" + mon[m - 1] + "' " + std::to_string(y);
    return boost::gregorian::date(y, m, d);
}
// Step lengths through the text of a deck; returns the lengths that the text spells.
inline dvec initFromDeck(Opm::SimulatorTimer& t, const dvec& steps, const std::string& date) {
    std::ostringstream d; d.precision(17); dvec out;
    d << "RUNSPEC\nOIL\nWATER\nMETRIC\nSTART\n " << date << " /\nSCHEDULE\nTSTEP\n";
    for (double x : steps) { std::ostringstream o; o.precision(17); o << x / 86400; d << " " << o.str(); out.push_back(strtod(o.str().c_str(), 0) * 86400); }
    d << " /\nEND\n";
    std::istringstream is(d.str());
    Opm::EclipseGridParser deck; deck.read(is);
    t.init(deck);
    return out;
}
