// What a results file must hold, and reading it back with the C library alone.
#ifndef H5MODEL_H
#define H5MODEL_H
#include "gen.h"
#include <hdf5.h>
#include <string.h>
#include <unistd.h>
using namespace sim;
namespace {
struct Arr { bool isint; std::vector<hsize_t> dim; std::vector<double> d; std::vector<uint64_t> u; };   // one recorded quantity of one state
typedef std::map<std::string, Arr> Row;
struct Group { std::vector<Row> rows; std::map<std::string, std::string> attrs; bool unknown; Group() : unknown(false) {} };
struct Table { std::vector<hsize_t> dim; std::vector<double> v; int kind; };                     // a table written by the harness
struct File { std::map<std::string, Group> groups; std::map<std::string, Table> tables; bool unknown, exists; int open; File() : unknown(false), exists(false), open(0) {} };

Row row_of(StateBase* s)
{
    Internal I; Row r; StateBase::ArrayInfo info;
    for (unsigned i = 0; s->getArray(i, info); i++) {
        Arr a; a.isint = info.type == StateBase::ArrayInfo::Sizet;
        size_t ix[3] = { 0, 0, 0 }, n[3] = { 1, 1, 1 };
        for (unsigned k = 0; k < info.ndim; k++) { n[k] = info.dim[k]; a.dim.push_back(n[k]); }
        for (ix[0] = 0; ix[0] < n[0]; ix[0]++) for (ix[1] = 0; ix[1] < n[1]; ix[1]++) for (ix[2] = 0; ix[2] < n[2]; ix[2]++) { if (a.isint) a.u.push_back(*info.get<size_t>(ix)); else a.d.push_back(*info.get<double>(ix)); }
        r[info.name] = a;
    }
    return r;
}

// read a closed file with the C library alone and compare
void verify_group(hid_t f, const std::string& fname, const std::string& gname, const Group& G)
{
    hid_t g = H5Gopen2(f, gname.empty() ? "/" : gname.c_str(), H5P_DEFAULT);
    if (g < 0) violate("lost-group", "%s was closed without error but has no group '%s'", fname.c_str(), gname.c_str());
    for (auto& a : G.attrs) {
        if (H5Aexists(g, a.first.c_str()) <= 0) violate("lost-attribute", "%s/%s was closed without error but lacks attribute %s", fname.c_str(), gname.c_str(), a.first.c_str());
        hid_t at = H5Aopen(g, a.first.c_str(), H5P_DEFAULT), ty = H5Aget_type(at); size_t n = H5Tget_size(ty); std::string v(n, 0);
        if (H5Aread(at, ty, &v[0]) < 0) violate("lost-attribute", "attribute %s of %s/%s can't be read", a.first.c_str(), fname.c_str(), gname.c_str());
        v = std::string(v.c_str(), strnlen(v.data(), n)); H5Tclose(ty); H5Aclose(at);
        if (v != a.second) violate("wrong-attribute", "attribute %s of %s/%s reads '%s' instead of '%s'", a.first.c_str(), fname.c_str(), gname.c_str(), v.c_str(), a.second.c_str());
    }
    if (!G.rows.empty()) for (auto& q : G.rows[0]) {
        const char* nm = q.first.c_str(); const Arr& A0 = q.second;
        if (H5Lexists(g, nm, H5P_DEFAULT) <= 0) violate("lost-quantity", "%s/%s was closed without error but lacks quantity %s", fname.c_str(), gname.c_str(), nm);
        hid_t d = H5Dopen2(g, nm, H5P_DEFAULT), sp = H5Dget_space(d); hsize_t dim[8] = { 0 }; int nd = H5Sget_simple_extent_ndims(sp); H5Sget_simple_extent_dims(sp, dim, 0);
        std::vector<hsize_t> want(1, G.rows.size()); want.insert(want.end(), A0.dim.begin(), A0.dim.end());
        for (auto& r : G.rows) { const Arr& A = r.at(q.first); for (size_t k = 0; k < A.dim.size(); k++) if (A.dim[k] > want[k + 1]) want[k + 1] = A.dim[k]; }
        std::string ws, gs; for (auto x : want) ws += std::to_string(x) + " "; for (int i = 0; i < nd; i++) gs += std::to_string(dim[i]) + " ";
        if (ws != gs) violate("wrong-shape", "%s/%s quantity %s has shape %sinstead of %s", fname.c_str(), gname.c_str(), nm, gs.c_str(), ws.c_str());
        hid_t fty = H5Dget_type(d); if ((H5Tget_class(fty) == H5T_INTEGER) != A0.isint) violate("wrong-shape", "%s/%s quantity %s has the wrong type", fname.c_str(), gname.c_str(), nm);
        size_t tot = 1; for (auto x : want) tot *= x; std::vector<uint64_t> buf(tot + 1);
        if (H5Dread(d, A0.isint ? H5T_NATIVE_UINT64 : H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &buf[0]) < 0) violate("unreadable", "%s/%s quantity %s can't be read", fname.c_str(), gname.c_str(), nm);
        size_t per = tot / G.rows.size();
        for (size_t r = 0; r < G.rows.size(); r++) {
            const Arr& A = G.rows[r].at(q.first); size_t n[3] = { 1, 1, 1 }, w[3] = { 1, 1, 1 }, ix[3]; for (size_t k = 0; k < A.dim.size(); k++) { n[k] = A.dim[k]; w[k] = want[k + 1]; }
            size_t c = 0;
            for (ix[0] = 0; ix[0] < n[0]; ix[0]++) for (ix[1] = 0; ix[1] < n[1]; ix[1]++) for (ix[2] = 0; ix[2] < n[2]; ix[2]++, c++) {
                uint64_t have = buf[r * per + (ix[0] * w[1] + ix[1]) * w[2] + ix[2]], exp; if (A.isint) exp = A.u[c]; else memcpy(&exp, &A.d[c], 8);
                if (have != exp) { double a, b; memcpy(&a, &have, 8); memcpy(&b, &exp, 8); violate("wrong-value", "%s/%s quantity %s row %zu of %zu index %zu,%zu,%zu reads %.17g instead of %.17g", fname.c_str(), gname.c_str(), nm, r, G.rows.size(), ix[0], ix[1], ix[2], a, b); }
            }
        }
        count("verified.values", tot);
        H5Tclose(fty); H5Sclose(sp); H5Dclose(d);
    }
    H5Gclose(g);
}
void verify(const std::string& path, const std::string& shown, const File& F)
{
    Internal I;
    std::string data = io::get(path), copy = scratch() + "/verify.tmp"; io::put(copy, data, 1400000000);
    hid_t f = H5Fopen(copy.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) violate("unreadable", "%s was closed without error but is not a readable file (%zu bytes)", shown.c_str(), data.size());
    for (auto& g : F.groups) if (!g.second.unknown) verify_group(f, shown, g.first, g.second);
    H5Fclose(f); unlink(copy.c_str()); count("verified.files");
}
}
#endif
