// Minimal stand-in for Ares Lagae's libply: same callback protocol, parses
// ascii and binary little endian files.
#ifndef VSTUB_PLY_HPP
#define VSTUB_PLY_HPP
#include <stdint.h>
#include <tr1/functional>
#include <tr1/tuple>
#include <istream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace ply {
    typedef int8_t int8; typedef int16_t int16; typedef int32_t int32;
    typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32;
    typedef float float32; typedef double float64;
    enum byte_order { little_endian_byte_order, big_endian_byte_order };
    static const byte_order host_byte_order = little_endian_byte_order;
    enum format_type { ascii_format, binary_little_endian_format, binary_big_endian_format, unknown };
    template<class T> struct scalar_cbs { std::tr1::function<std::tr1::function<void (T)> (std::string const&, std::string const&)> f; };
    template<class S, class T> struct list_cbs {
        typedef std::tr1::tuple<std::tr1::function<void (S)>, std::tr1::function<void (T)>, std::tr1::function<void ()> > cbs;
        std::tr1::function<cbs (std::string const&, std::string const&)> f; };
    struct scalar_all : scalar_cbs<int8>, scalar_cbs<int16>, scalar_cbs<int32>, scalar_cbs<uint8>, scalar_cbs<uint16>, scalar_cbs<uint32>, scalar_cbs<float32>, scalar_cbs<float64> {};
    template<class S> struct list_size : list_cbs<S,int8>, list_cbs<S,int16>, list_cbs<S,int32>, list_cbs<S,uint8>, list_cbs<S,uint16>, list_cbs<S,uint32>, list_cbs<S,float32>, list_cbs<S,float64> {};
    struct list_all : list_size<uint8>, list_size<uint16>, list_size<uint32> {};
    struct callback_types { typedef scalar_all scalar_property_definition_callbacks_type; typedef list_all list_property_definition_callbacks_type; };
    template<class T> std::tr1::function<std::tr1::function<void (T)> (std::string const&, std::string const&)>& at(scalar_all& a) { return static_cast<scalar_cbs<T>&>(a).f; }
    template<class S, class T> std::tr1::function<typename list_cbs<S,T>::cbs (std::string const&, std::string const&)>& at(list_all& a) { return static_cast<list_cbs<S,T>&>(a).f; }
    class ply_parser {
    public:
        typedef int flags_type;
        typedef std::tr1::function<void (std::size_t, std::string const&)> msg_cb;
        explicit ply_parser(flags_type = 0) {}
        void info_callback(msg_cb const& c) { info = c; }
        void warning_callback(msg_cb const& c) { warning = c; }
        void error_callback(msg_cb const& c) { error = c; }
        void magic_callback(std::tr1::function<void ()> const& c) { magic = c; }
        void format_callback(std::tr1::function<void (format_type, std::string const&)> const& c) { fmt = c; }
        void scalar_property_definition_callbacks(scalar_all const& c) { sc = c; }
        void list_property_definition_callbacks(list_all const& c) { lc = c; }
        void comment_callback(std::tr1::function<void (std::string const&)> const& c) { comment = c; }
        void obj_info_callback(std::tr1::function<void (std::string const&)> const& c) { obj = c; }
        void end_header_callback(std::tr1::function<bool ()> const& c) { endh = c; }
        struct Reader { virtual ~Reader() {} virtual bool read(std::istream& is, bool ascii) = 0; };
        template<class T> static bool get(std::istream& is, bool ascii, T& v) {
            if (ascii) { double d; if (!(is >> d)) return false; v = T(d); return true; }
            return (bool)is.read(reinterpret_cast<char*>(&v), sizeof(T)); }
        template<class T> struct SR : Reader { std::tr1::function<void (T)> f;
            bool read(std::istream& is, bool a) { T v; if (!get(is, a, v)) return false; if (f) f(v); return true; } };
        template<class S, class T> struct LR : Reader { typename list_cbs<S,T>::cbs f;
            bool read(std::istream& is, bool a) { S n; if (!get(is, a, n)) return false; std::tr1::get<0>(f)(n);
                for (size_t i = 0; i < size_t(n); ++i) { T v; if (!get(is, a, v)) return false; std::tr1::get<1>(f)(v); }
                std::tr1::get<2>(f)(); return true; } };
        template<class T> Reader* mks(std::string const& e, std::string const& p) { SR<T>* r = new SR<T>(); if (at<T>(sc)) r->f = at<T>(sc)(e, p); return r; }
        template<class S, class T> Reader* mkl(std::string const& e, std::string const& p) { LR<S,T>* r = new LR<S,T>(); r->f = at<S,T>(lc)(e, p); return r; }
        template<class S> Reader* mkl1(std::string const& t, std::string const& e, std::string const& p) {
            switch (code(t)) { case 1: return mkl<S,int8>(e,p); case 2: return mkl<S,int16>(e,p); case 3: return mkl<S,int32>(e,p); case 4: return mkl<S,uint8>(e,p);
                case 5: return mkl<S,uint16>(e,p); case 6: return mkl<S,uint32>(e,p); case 7: return mkl<S,float32>(e,p); case 8: return mkl<S,float64>(e,p); } return 0; }
        static int code(std::string const& t) {
            if (t == "char" || t == "int8") return 1; if (t == "short" || t == "int16") return 2; if (t == "int" || t == "int32") return 3;
            if (t == "uchar" || t == "uint8") return 4; if (t == "ushort" || t == "uint16") return 5; if (t == "uint" || t == "uint32") return 6;
            if (t == "float" || t == "float32") return 7; if (t == "double" || t == "float64") return 8; return 0; }
        struct Element { std::string name; size_t count; std::vector<Reader*> readers; };
        bool parse(std::istream& is) {
            std::vector<Element> els; bool ok = doParse(is, els);
            for (size_t i = 0; i < els.size(); ++i) for (size_t j = 0; j < els[i].readers.size(); ++j) delete els[i].readers[j];
            return ok; }
    private:
        bool fail(size_t line, char const* m) { if (error) error(line, m); return false; }
        bool doParse(std::istream& is, std::vector<Element>& els) {
            std::string l; size_t n = 1; bool ascii = true;
            if (!std::getline(is, l) || l != "ply") return fail(n, "parse error: magic");
            if (magic) magic();
            while (true) {
                ++n; if (!std::getline(is, l)) return fail(n, "unexpected end of header");
                std::istringstream s(l); std::string k; s >> k;
                if (k == "format") { std::string f, v; s >> f >> v; ascii = f == "ascii"; if (f == "binary_big_endian") return fail(n, "unsupported"); if (fmt) fmt(ascii ? ascii_format : binary_little_endian_format, v); }
                else if (k == "comment") { if (comment) comment(l); }
                else if (k == "obj_info") { if (obj) obj(l); }
                else if (k == "element") { Element e; if (!(s >> e.name >> e.count)) return fail(n, "parse error: element"); els.push_back(e); }
                else if (k == "property") {
                    if (els.empty()) return fail(n, "property without element");
                    std::string t, name; s >> t;
                    if (t == "list") { std::string st, et; s >> st >> et >> name; Reader* r = 0;
                        switch (code(st)) { case 4: r = mkl1<uint8>(et, els.back().name, name); break; case 5: r = mkl1<uint16>(et, els.back().name, name); break; case 6: r = mkl1<uint32>(et, els.back().name, name); break; }
                        if (!r) return fail(n, "unknown type"); els.back().readers.push_back(r); }
                    else { s >> name; Reader* r = 0; std::string const& e = els.back().name;
                        switch (code(t)) { case 1: r = mks<int8>(e,name); break; case 2: r = mks<int16>(e,name); break; case 3: r = mks<int32>(e,name); break; case 4: r = mks<uint8>(e,name); break;
                            case 5: r = mks<uint16>(e,name); break; case 6: r = mks<uint32>(e,name); break; case 7: r = mks<float32>(e,name); break; case 8: r = mks<float64>(e,name); break; }
                        if (!r) return fail(n, "unknown type"); els.back().readers.push_back(r); }
                }
                else if (k == "end_header") break;
                else return fail(n, "parse error: keyword");
            }
            if (endh && !endh()) return true;
            for (size_t i = 0; i < els.size(); ++i) for (size_t c = 0; c < els[i].count; ++c) for (size_t j = 0; j < els[i].readers.size(); ++j)
                if (!els[i].readers[j]->read(is, ascii)) return fail(n, "unexpected end of data");
            return true;
        }
        msg_cb info, warning, error; std::tr1::function<void ()> magic; std::tr1::function<void (format_type, std::string const&)> fmt;
        scalar_all sc; list_all lc; std::tr1::function<void (std::string const&)> comment, obj; std::tr1::function<bool ()> endh;
    };
}
#endif
