// Shared pieces of the scenarios on live documents (.xbw): reference model, dictionary, observation.
#pragma once
#include "core.hpp"
#include <string.h>
#include <binary_xml/bin_write_plugin.h>

extern "C" void *sim_new_a(size_t);
extern "C" void sim_delete_a(void *);

namespace sim {
using namespace pklib_xml;

// the value in a block of memory of exactly its size: reading behind it is noticed
struct Exact {
    char *p;
    Exact(const std::string &v, int type) {
        bool text = type == XBT_STRING || type == XBT_BLOB_STRING;
        size_t n = v.size() + (text ? 1 : 0);
        p = (char *)sim_new_a(n ? n : 1);
        memcpy(p, v.c_str(), n);
    }
    ~Exact() { sim_delete_a(p); }
};

struct SymDef { const char *name; XML_Binary_Type type; };
extern const SymDef TAGS[];
extern const SymDef ATTRS[];
extern const int NTAGS, NATTRS;
enum { T_ROOT, T_ITEM, T_TEXT, T_BTEXT, T_I32, T_I64, T_FLT, T_BLOB, T_HEX, T_GUID, T_SHA, T_TIME, T_TIME64, T_DECI, T_IPV4, T_NODE, T_COUNT };
enum { A_ID, A_NAME, A_BLOB, A_HEX, A_U32, A_I64, A_U64, A_FLT, A_DBL, A_GUID, A_SHA, A_TIME, A_TIME64, A_NULL, A_COUNT };

// names are registered through this table: model ids (index above) <-> document ids
struct Dict {
    int tag_id[64], attr_id[64];
    int ntags = 0, nattrs = 0;
    Dict() { for (int i = 0; i < 64; i++) tag_id[i] = attr_id[i] = -1; }
    int tag_of(int id) const { for (int i = 0; i < 64; i++) if (tag_id[i] == id) return i; return -1000 + id; }
    int attr_of(int id) const { for (int i = 0; i < 64; i++) if (attr_id[i] == id) return i; return -1000 + id; }
};

struct Attr {
    int id = 0, type = 0;
    std::string v;
    bool operator==(const Attr &o) const { return id == o.id && type == o.type && v == o.v; }
};
struct Node {
    int tag = 0, type = 0;
    std::string v;
    std::vector<Attr> attrs;
    std::vector<Node> ch;
    bool operator==(const Node &o) const { return tag == o.tag && type == o.type && v == o.v && attrs == o.attrs && ch == o.ch; }
    bool operator!=(const Node &o) const { return !(*this == o); }
    bool same_self(const Node &o) const { return tag == o.tag && type == o.type && v == o.v && attrs == o.attrs; }
    int total() const { int n = 1; for (auto &c : ch) n += c.total(); return n; }
};
struct Tree {
    bool has = false;
    Node root;
    bool operator==(const Tree &o) const { return has == o.has && (!has || root == o.root); }
};
typedef std::vector<int> Path;
Node *at(Tree &t, const Path &p);
bool nth_node(const Tree &t, int k, Path &p); // k-th node in pre-order
int count_nodes(const Tree &t);

void put(std::string &s, const Node &n);
std::string ser(const Tree &t);
Tree deser(const char *p, size_t n);
std::string show(const Tree &t);
std::string show(const Node &n, int deep = 0);
uint64_t tree_hash(const Tree &t);
std::string first_diff(const Tree &a, const Tree &b);

std::string value_bytes(XML_Binary_Type t, uint64_t seed, int size); // canonical bytes of a generated value
std::string rnd_bytes(uint64_t seed, int n);
std::string rnd_text(uint64_t seed, int n);

// what the library shows
struct ObserveOpts { bool backward = true; bool callbacks = true; };
Tree observe(BW_plugin &W, const Dict &d, const char *where, ObserveOpts o = ObserveOpts());
Node observe_node(BW_plugin &W, const Dict &d, BW_element *E, const char *where, int deep, int &budget, const ObserveOpts &o);
BW_element *find(BW_plugin &W, const Path &p, const char *where);

// creation through the API; nullptr = the library reported failure
BW_element *make_tag(BW_plugin &W, const Dict &d, int tag, const std::string &v);
bool make_attr(BW_element *E, const Dict &d, int attr, const std::string &v);

// dictionary by name; fails the run when the library breaks its promise
bool make_null_attr(BW_element *E, const Dict &d, int attr);
bool text_form(int type, const std::string &v, std::string &t);
bool register_all(BW_plugin &W, Dict &d, int ntags, int nattrs, Dict *known, const char *where);

// shared between the simulated processes of one run
struct DocShared {
    int known_tags, known_attrs;
    int tag_id[64], attr_id[64];
    int op_index;           // next op to execute
    int pending;            // a step is in flight
    int loose;              // how much the in-flight step may differ: see L_*
    int loose_path_len; int loose_path[64];
    int extra[8];
    uint32_t len_before, len_after;
    char before[1 << 19];
    char after[1 << 19];
};
enum { L_ATOMIC, L_CHILD, L_TEXT };
DocShared *doc_shared();

} // namespace sim
