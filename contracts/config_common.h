// Configuration through the real bridges: MessagePack, or YAML if VP_YAML is defined.  The library msgpack is untouched; a symbolic scalar travels through the
// file as an extension object (as a double does as a float64), everything else in its native representation.
#pragma once
#define BOOST_ENABLE_ASSERT_HANDLER
#include "vp.h"
#ifndef VP_YAML
#include <msgpack.hpp>
#endif
#include <boost/assert.hpp>
#include <typeinfo>
#include <unistd.h>
namespace boost
{
    inline void assertion_failed(char const *e, char const *, char const *, long) { throw vp::EigenAssertFailure(std::string("boost assertion: ") + e); }
    inline void assertion_failed_msg(char const *e, char const *, char const *, char const *, long) { throw vp::EigenAssertFailure(std::string("boost assertion: ") + e); }
}
#if !defined(VP_CONCRETE) && !defined(VP_YAML)
namespace msgpack
{
    MSGPACK_API_VERSION_NAMESPACE(MSGPACK_DEFAULT_API_NS)
    {
        namespace adaptor
        {
            template <> struct convert<vp::Real>
            {
                msgpack::object const &operator()(msgpack::object const &o, vp::Real &v) const
                {
                    if (o.type == msgpack::type::EXT && o.via.ext.type() == 7 && o.via.ext.size == sizeof(vp::NodeP))
                    {
                        vp::NodeP p;
                        std::memcpy(&p, o.via.ext.data(), sizeof(p));
                        v = vp::Real(p);
                        return o;
                    }
                    double d = 0;
                    o.convert(d);               // numbers only, otherwise msgpack::type_error, as for a double
                    v = vp::Real(d);
                    return o;
                }
            };
            template <> struct pack<vp::Real>
            {
                template <class Stream> packer<Stream> &operator()(msgpack::packer<Stream> &o, vp::Real const &v) const
                {
                    vp::NodeP p = v.node();
                    o.pack_ext(sizeof(p), 7);
                    o.pack_ext_body(reinterpret_cast<const char *>(&p), sizeof(p));
                    return o;
                }
            };
        }
    }
}
#endif
#include "vp_eigen.h"
#ifdef VP_YAML
#include "humoto/config_yaml.h"
#else
#include "humoto/config_msgpack.h"
#endif
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/kktsolver.h"
#include "humoto/quadprogpp.h"
#include "humoto/qpmad.h"
#include "humoto/qpoases.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"

namespace vp
{
#ifdef VP_YAML
    typedef humoto::config::yaml::Reader Reader;
    typedef humoto::config::yaml::Writer Writer;
#else
    typedef humoto::config::msgpack::Reader Reader;
    typedef humoto::config::msgpack::Writer Writer;
#endif

    struct TempFile
    {
        std::string name;
        TempFile() { static int n = 0; const char *d = getenv("VP_SCRATCH"); name = std::string(d ? d : "/tmp") + "/vp_cfg_" + std::to_string((long)getpid()) + "_" + std::to_string(++n); }
        ~TempFile() { unlink(name.c_str()); }
        operator const std::string &() const { return name; }
    };
    // ---- values of configuration entries
    inline bool unset(const Real &r)
    {
#ifdef VP_CONCRETE
        return r != r;
#else
        return show(r.node()).compare(0, 3, "nan") == 0;
#endif
    }
    struct Value
    {
        std::vector<Real> r;
        std::string s;
    };
    inline Formula same(const Value &a, const Value &b)
    {
        if (a.s != b.s || a.r.size() != b.r.size()) return Formula(false);
        std::vector<Formula> f;
        for (std::size_t i = 0; i < a.r.size(); ++i) f.push_back((unset(a.r[i]) || unset(b.r[i])) ? Formula(unset(a.r[i]) && unset(b.r[i])) : eq(a.r[i], b.r[i]));
        return land(f);
    }
    struct Dump
    {
        std::map<std::string, Value> e;
        std::string prefix;
        Dump &operator()(const std::string &n, const Real &v) { e[prefix + n].r = {v}; return *this; }
        template <class D> Dump &mat(const std::string &n, const Eigen::MatrixBase<D> &m)
        {
            Value v;
            v.s = std::to_string(m.rows()) + "x" + std::to_string(m.cols());
            for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) v.r.push_back(Real(m(i, j)));
            e[prefix + n] = v;
            return *this;
        }
        Dump &str(const std::string &n, const std::string &s) { e[prefix + n].s = s; return *this; }
        template <class I> Dump &num(const std::string &n, I i) { return str(n, std::to_string(i)); }
    };
    inline bool below(const std::string &name, const std::string &path) { return name == path || name.compare(0, path.size() + 1, path + "/") == 0; }

    // ---- the file, independently of the code under contract
    inline std::string slurp(const std::string &f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
    inline void spit(const std::string &f, const std::string &d) { std::ofstream o(f.c_str(), std::ios::binary); o << d; }
#ifndef VP_YAML
    typedef msgpack::packer<std::stringstream> Packer;
    // copy of an object without the entry `drop`, or with `put` in its place
    inline void repack(Packer &p, const msgpack::object &o, const std::string &path, const std::string &drop, const std::function<void(Packer &)> &put)
    {
        if (path == drop && put) { put(p); return; }
        if (o.type != msgpack::type::MAP) { p.pack(o); return; }
        uint32_t n = 0;
        auto sub = [&](uint32_t i) { std::string k = o.via.map.ptr[i].key.as<std::string>(); return path.empty() ? k : path + "/" + k; };
        for (uint32_t i = 0; i < o.via.map.size; ++i) if (put || sub(i) != drop) ++n;
        p.pack_map(n);
        for (uint32_t i = 0; i < o.via.map.size; ++i) if (put || sub(i) != drop) { p.pack(o.via.map.ptr[i].key); repack(p, o.via.map.ptr[i].val, sub(i), drop, put); }
    }
    inline void edit(const std::string &from, const std::string &to, const std::string &section, const std::string &path, std::function<void(Packer &)> put = nullptr)
    {
        std::string d = slurp(from);
        std::stringstream out;
        Packer p(out);
        std::size_t off = 0;
        while (off < d.size())
        {
            msgpack::object_handle h;
            msgpack::unpack(h, d.data(), d.size(), off);
            repack(p, h.get(), "", section + "/" + path, put);
        }
        spit(to, out.str());
    }
    inline void paths(const msgpack::object &o, const std::string &path, std::vector<std::string> &out)
    {
        if (o.type != msgpack::type::MAP) return;
        for (uint32_t i = 0; i < o.via.map.size; ++i)
        {
            std::string k = o.via.map.ptr[i].key.as<std::string>();
            std::string here = path.empty() ? k : path + "/" + k;
            out.push_back(here);
            paths(o.via.map.ptr[i].val, here, out);
        }
    }
    // all entries below a section of the file
    inline std::vector<std::string> entriesOf(const std::string &file, const std::string &section)
    {
        std::string d = slurp(file);
        std::vector<std::string> all, r;
        std::size_t off = 0;
        while (off < d.size())
        {
            msgpack::object_handle h;
            msgpack::unpack(h, d.data(), d.size(), off);
            paths(h.get(), "", all);
        }
        for (auto &s : all) if (s != section && below(s, section)) r.push_back(s.substr(section.size() + 1));
        return r;
    }
#else
    // builds the value of an entry
    struct Packer
    {
        YAML::Node node; long left; bool sequence;
        Packer() : left(0), sequence(false) {}
        static YAML::Node leaf(const std::string &s) { YAML::Node n; n.type_ = YAML::NodeType::Scalar; n.text_ = s; n.quoted_ = true; return n; }
        static YAML::Node of(const std::string &s) { return leaf(s); }
        static YAML::Node of(long i) { YAML::Node n = leaf(std::to_string(i)); n.quoted_ = false; return n; }
        template <class T> static YAML::Node of(const std::vector<T> &v) { YAML::Node n; n.type_ = YAML::NodeType::Sequence; for (auto &x : v) n.items_.push_back(of(x)); return n; }
        void pack_nil() { node = YAML::Node(); }
        void pack_array(long) { node = YAML::Node(); node.type_ = YAML::NodeType::Sequence; sequence = true; }
        template <class T> void pack(const T &v) { if (sequence) node.items_.push_back(of(v)); else node = of(v); }
    };
    inline YAML::Node parsed(const std::string &file) { std::istringstream i(slurp(file)); YAML::Parser p; p.Load(i); YAML::Node n; p.GetNextDocument(n); return n; }
    inline std::string text(const YAML::Node &n, bool root = false)
    {
        std::string o;
        switch (n.type_)
        {
            case YAML::NodeType::Null: return "~";
            case YAML::NodeType::Scalar: return n.quoted_ ? YAML::quoted(n.text_) : n.text_;
            case YAML::NodeType::Sequence: for (auto &i : n.items_) o += (o.empty() ? "" : ", ") + text(i); return "[" + o + "]";
            default: for (auto &e : n.entries_) o += (o.empty() ? "" : root ? "\n" : ", ") + YAML::quoted(e.first) + ": " + text(e.second); return root && !o.empty() ? o : "{" + o + "}";
        }
    }
    inline void rebuild(YAML::Node &n, const std::string &path, const std::string &drop, const std::function<void(Packer &)> &put)
    {
        if (path == drop && put) { Packer p; put(p); n = p.node; return; }
        for (std::size_t i = 0; i < n.entries_.size(); )
        {
            std::string here = path.empty() ? n.entries_[i].first : path + "/" + n.entries_[i].first;
            if (here == drop && !put) { n.entries_.erase(n.entries_.begin() + i); continue; }
            rebuild(n.entries_[i].second, here, drop, put);
            ++i;
        }
    }
    inline void edit(const std::string &from, const std::string &to, const std::string &section, const std::string &path, std::function<void(Packer &)> put = nullptr)
    {
        YAML::Node n = parsed(from);
        rebuild(n, "", section + "/" + path, put);
        spit(to, text(n, true));
    }
    inline void paths(const YAML::Node &n, const std::string &path, std::vector<std::string> &out)
    {
        for (auto &e : n.entries_) { std::string here = path.empty() ? e.first : path + "/" + e.first; out.push_back(here); paths(e.second, here, out); }
    }
    inline std::vector<std::string> entriesOf(const std::string &file, const std::string &section)
    {
        std::vector<std::string> all, r;
        paths(parsed(file), "", all);
        for (auto &s : all) if (s != section && below(s, section)) r.push_back(s.substr(section.size() + 1));
        return r;
    }
#endif
    template <class F> inline void fails(const std::string &label, F f) { ensuresThrows(label, f); }
    template <class F> inline bool works(const std::string &label, F f)
    {
        std::string why;
        try { f(); return true; }
        catch (const EigenAssertFailure &e) { why = e.what(); }
        catch (const std::exception &e) { why = e.what(); }
        ensures(label + " (" + why + ")", false);
        return false;
    }
    inline void compare(const std::string &label, const Dump &a, const Dump &b)
    {
        std::vector<std::string> ka, kb;
        for (auto &x : a.e) ka.push_back(x.first);
        for (auto &x : b.e) kb.push_back(x.first);
        ensures(label + ": entries", ka == kb);
        for (auto &x : a.e) if (b.e.count(x.first)) ensures(label + ": " + x.first, same(x.second, b.e.at(x.first)));
    }
}
