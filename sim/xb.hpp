// Shared pieces of the conversion scenarios: source documents (text and live), their expected tree,
// and the comparison with what the reader of .xb files (or of .xbw files) shows.
#pragma once
#include "bw.hpp"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_creator.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_xml_plugin.h>
#include <binary_xml/bin_json_plugin.h>

namespace sim {

enum { XT_TEXT = -1, XT_LOOSE = -2, XT_HEXTEXT = -3 }; // otherwise an XBT_* type with its bytes
struct XA { std::string name; int type = XT_TEXT; std::string v; };
struct XN {
    std::string name; int type = XT_TEXT; std::string v;
    std::vector<XA> attrs;
    std::vector<XN> ch;
    int total() const { int n = 1; for (auto &c : ch) n += c.total(); return n; }
};

enum SrcKind { SRC_BW, SRC_XML, SRC_JSON };
struct SrcCfg { int kind; uint64_t dict_seed; bool mixed; int ns; }; // ns: 1 default namespace, 2 prefixes
void put_xn(std::string &o, const XN &x);
XN get_xn(const char *&p);
// text sources
std::string make_text(const SrcCfg &c, uint64_t seed, int n, int size, XN &expect);
// live document: builds it through the API into an opened, registered W
XN build_live(BW_plugin &W, const Dict &d, uint64_t seed, int n, int size, bool tail = false);
BW_element *build_record(BW_plugin &W, const Dict &d, Rng &r, int &n, int size, int deep, XN &out);

// "" = equal
std::string match_xb(XB_reader &R, const XN &x, const std::vector<XN> *tail = nullptr);
std::string match_xbw(BW_plugin &W, const XN &x);
// walk everything there is, whatever it is
std::string walk_xb(XB_reader &R, int max_deep = 400);

void xml_io_hook();      // let libxml2 read source files through the seams
int64_t xml_heap_live(); // blocks libxml2 holds
void xml_heap_hook();
bool put_file(const char *name, const std::string &data);

} // namespace sim
