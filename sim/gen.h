// Random lattices, beams and state comparison shared by the workloads.
#ifndef GEN_H
#define GEN_H
#include "sim.h"
#include <flame/base.h>
#include <flame/config.h>
#include <map>
#include <memory>

#include <sstream>

namespace gen {

enum { F_CAVITY = 1, F_GENERIC = 2, F_CURVEFILE = 4, F_STRIPPER = 8, F_SEXT = 16, F_BADBACK = F_STRIPPER | F_SEXT, F_ALL = 31 };

extern std::string datadir;              // directory with the cavity data
void setup_data();                       // data dir = read-only copy shipped with /verif
void set_datadir();                      // only that, without registering any type
void copy_data(const std::string& dst, int64_t mtime, const std::vector<std::string>& cavs); // into scratch

Config moment_beam();                    // beam parameters of a MomentMatrix source/state
Config moment_element(const std::string& name, unsigned flags);
Config moment_element_type(const std::string& type, const std::string& name, unsigned flags);
const std::vector<std::string>& moment_types();
// change one parameter (the returned config has the same type)
Config mutate_element(const Config& e, unsigned flags, std::string& what);
Config linear_element(const std::string& name);

// whole machine: kind 0 Moment, 1 Vector, 2 TransferMatrix
Config machine(int kind, unsigned n, unsigned flags, bool source);
int random_kind(unsigned moment_pct = 85);

// flatten everything observable of a state
struct Snap { std::vector<std::string> names; std::vector<std::vector<double> > vals; };
Snap snap(StateBase* s, bool with_next = false);
// returns empty string if equal
std::string diff(const Snap& a, const Snap& b, double rel = 1e-9, double abs_scale = 1e-12);
bool bit_equal(const Snap& a, const Snap& b, std::string* where = 0);
bool finite(const Snap& a);

// perturb one independent field of a (moment) state through its array interface; returns a description
std::string perturb(StateBase* s);
std::string cfg_str(const Config& c);    // complete textual image of a Config (values of the inner scope and elements)

// complete images, to hand over to a Pristine process
std::string pack(const Config& c);       // with what it inherits, as own values
Config unpack(const std::string& s, size_t& pos);
void pack_num(std::string& o, uint64_t v); void pack_str(std::string& o, const std::string& v);
uint64_t unpack_num(const std::string& s, size_t& pos); std::string unpack_str(const std::string& s, size_t& pos);
std::string pack(StateBase* s);
StateBase* unpack_state(Machine& M, const std::string& s);
std::string pack(const Snap& s);
Snap unpack_snap(const std::string& s);
std::string cfg_full(const Config& c);   // with what it inherits

void set_m(Config& c, const char* k, double v);

// what a state prints, worked out from its quantities
std::string render(StateBase* s, int level);
void render(std::ostream& o, StateBase* s, int level);   // formatting left behind in the stream applies

// logging and tracing, which come and go during some histories and must make no difference
struct Chatter {
    bool on; std::ostringstream out; std::streambuf* cout0;
    Chatter(); ~Chatter();
    void turn(Machine* M);
};
}
#endif
