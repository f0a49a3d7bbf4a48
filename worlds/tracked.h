// User types whose every construction and destruction is known to the simulator, with optional failures.
#pragma once
#include "../sim/rt.h"

namespace worlds {

constexpr int MOVED = -777;

// ID: lifetime oracle's type number; PAD: extra bytes; NTM: moves never fail
template<int ID, int PAD, bool NTM = true> struct Trk
{
    int v; char pad[PAD > 0 ? PAD : 1];
    explicit Trk(int x): v(x) { sim::user_point(1); init(); sim::obj_ctor(this, ID, x); }
    Trk(Trk const &o): v(o.read()) { sim::user_point(1); init(); sim::obj_ctor(this, ID, v); }
    Trk(Trk &&o) noexcept(NTM): v(o.read()) { if (!NTM) sim::user_point(2); init(); sim::obj_ctor(this, ID, v); o.v = MOVED; }
    ~Trk() { sim::obj_dtor(this, ID); }
    Trk &operator=(Trk const &o) { int x = o.read(); read(); sim::user_point(1); v = x; return *this; }
    Trk &operator=(Trk &&o) noexcept(NTM) { int x = o.read(); read(); if (!NTM) sim::user_point(2); v = x; if (&o != this) o.v = MOVED; return *this; }
    bool operator==(Trk const &o) const { sim::user_point(5); return read() == o.read(); }
    int read() const { if (!sim::obj_alive(this, ID)) sim::violation("lifetime", "an object that does not exist was used"); return v; }
private:
    void init() { for (auto &c: pad) c = char(v); }
};

} // namespace worlds
