// pdrv: drives the public C interface of libparser (as the .NET/other clients do) from a
// tab separated, percent encoded command script on stdin and writes one JSON event per command.
// The events are judged offline by the Python monitors; this program decides nothing.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "AllAttributesParserBase.h"
#include "AllAttributesParserWrapperBase.h"
#include "GeneralParserDefines.h"
#include "fanuc/AllAttributesParserDefines.h"
#include "fanuc/AllAttributesParserWrapper.h"
#include "fanuc/CodeGroupsDefines.h"
#include "heidenhain/AllAttributesParserWrapper.h"

#ifdef BOOST_ENABLE_ASSERT_HANDLER
namespace boost {
void assertion_failed(char const* expr, char const* function, char const* file, long line)
{
    std::fprintf(stderr, "MONITOR: boost assertion failed: %s in %s at %s:%ld\n", expr, function, file, line);
    std::abort();
}
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line)
{
    std::fprintf(stderr, "MONITOR: boost assertion failed: %s (%s) in %s at %s:%ld\n", expr, msg, function, file, line);
    std::abort();
}
} // namespace boost
#endif

using namespace parser;

static std::string undec(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '%' && i + 2 < s.size())
        {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        }
        else
            r += s[i];
    }
    return r;
}

static std::string jstr(const char* p)
{
    if (!p)
        return "null";
    std::string r = "\"";
    for (; *p; ++p)
    {
        unsigned char c = static_cast<unsigned char>(*p);
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 0x20 || c > 0x7e)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

static std::string jnum(double d)
{
    if (std::isnan(d))
        return "NaN";
    if (std::isinf(d))
        return d > 0 ? "Infinity" : "-Infinity";
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", d);
    return b;
}

struct Word
{
    std::string word;
    int         rf, rt;
    unsigned    df, dt;
    bool        unique;
    int         type;
};

struct Profile
{
    std::vector<Word>                                                                 metric, imperial;
    std::vector<std::string>                                                          ops;
    std::vector<std::pair<std::string, std::vector<std::pair<unsigned, unsigned>>>> gg, mg;
};

static std::map<std::string, Profile> profiles;

static void add_group(std::vector<std::pair<std::string, std::vector<std::pair<unsigned, unsigned>>>>& g,
                      const std::string& name, unsigned c, unsigned r)
{
    if (g.empty() || g.back().first != name)
        g.push_back({name, {}});
    g.back().second.push_back({c, r});
}

struct Ctx
{
    std::map<std::string, AllAttributesParserWrapperBase*> ps;
    ~Ctx()
    {
        for (auto& p : ps)
            DisposeAllAttributesParser(p.second);
    }
};

static std::string words_json(WordValueWrapper* v, int n)
{
    std::string r = "[";
    for (int i = 0; i < n; ++i)
    {
        if (i)
            r += ",";
        r += "[" + jstr(v[i].word) + "," + jstr(v[i].value) + "]";
    }
    return r + "]";
}

static AllAttributesParserWrapperBase* make_fanuc(const Profile& p, const std::vector<std::string>& a)
{
    // a: new id profile ptype lang eval vcg calc ncs zpa without
    auto conv = [](const std::vector<Word>& w, std::vector<const char*>& k, std::vector<fanuc::WordGrammarWrapper>& v) {
        for (auto& x : w)
        {
            k.push_back(x.word.c_str());
            v.push_back({const_cast<char*>(x.word.c_str()), x.rf, x.rt, x.df, x.dt, x.unique,
                         static_cast<fanuc::WordType>(x.type)});
        }
    };
    std::vector<const char*>                mk, ik, ok, ggk, mgk;
    std::vector<fanuc::WordGrammarWrapper>  mv, iv;
    std::vector<fanuc::CodeGroupValue>      ggv, mgv;
    std::vector<int>                        ggl, mgl;
    conv(p.metric, mk, mv);
    conv(p.imperial, ik, iv);
    for (auto& o : p.ops)
        ok.push_back(o.c_str());
    for (auto& g : p.gg)
    {
        ggk.push_back(g.first.c_str());
        ggl.push_back(static_cast<int>(g.second.size()));
        for (auto& c : g.second)
            ggv.push_back({c.first, c.second});
    }
    for (auto& g : p.mg)
    {
        mgk.push_back(g.first.c_str());
        mgl.push_back(static_cast<int>(g.second.size()));
        for (auto& c : g.second)
            mgv.push_back({c.first, c.second});
    }
    ParserSettings s{a[5] == "1", a[6] == "1", a[7] == "1", a[8] == "1", a[9] == "1"};
    OtherSettings  o{static_cast<ELanguage>(std::stoi(a[4]))};
    return fanuc::CreateFanucAllAttributesParser(
        mk.data(), mv.data(), static_cast<int>(mk.size()), ik.data(), iv.data(), static_cast<int>(ik.size()), ok.data(),
        static_cast<int>(ok.size()), ggk.data(), ggv.data(), static_cast<int>(ggk.size()), ggl.data(), mgk.data(),
        mgv.data(), static_cast<int>(mgk.size()), mgl.data(), &s, &o, static_cast<EFanucParserType>(std::stoi(a[3])),
        a[10] == "1");
}

static void kv(const std::string& s, std::vector<std::string>& k, std::vector<double>& v)
{
    std::stringstream ss(s);
    std::string       t;
    while (std::getline(ss, t, ','))
    {
        auto p = t.find('=');
        k.push_back(t.substr(0, p));
        v.push_back(std::stod(t.substr(p + 1)));
    }
}

static void nc(AllAttributesParserWrapperBase* w, const std::vector<std::string>& a)
{
    // nc id mt mtt mbp tep | kin 13 | axes X=min:max,.. | 17 defaults comma | zx,zy,zz
    std::vector<std::string> mk, tk;
    std::vector<double>      mv, tv;
    kv(a[4], mk, mv);
    kv(a[5], tk, tv);
    std::vector<char*> mkp, tkp;
    for (auto& x : mk)
        mkp.push_back(const_cast<char*>(x.c_str()));
    for (auto& x : tk)
        tkp.push_back(const_cast<char*>(x.c_str()));
    std::string       s1 = a[15], s2 = a[16], s3 = a[17], s4 = a[18];
    KinematicsWrapper k{};
    k.max_working_feed                  = std::stod(a[6]);
    k.max_fast_feed                     = std::stod(a[7]);
    k.maximum_spindle_speed             = std::stoi(a[8]);
    k.numer_of_items_in_the_warehouse   = std::stoi(a[9]);
    k.tool_exchange_time                = std::stoi(a[10]);
    k.pallet_exchange_time              = std::stoi(a[11]);
    k.tool_measurement_time             = std::stoi(a[12]);
    k.diameter_programming_2x           = a[13] == "1";
    k.auto_measure_after_tool_selection = a[14] == "1";
    k.pallet_exchange_code              = s1.data();
    k.pallet_exchange_code_value        = s2.data();
    k.tool_measurement_code             = s3.data();
    k.tool_measurement_code_value       = s4.data();
    std::vector<std::string> an;
    std::vector<std::pair<double, double>> ar;
    {
        std::stringstream ss(a[19]);
        std::string       t;
        while (std::getline(ss, t, ','))
        {
            auto p = t.find('='), c = t.find(':');
            an.push_back(t.substr(0, p));
            ar.push_back({std::stod(t.substr(p + 1, c - p - 1)), std::stod(t.substr(c + 1))});
        }
    }
    std::vector<AxisParametersWrapper> ax;
    for (size_t i = 0; i < an.size(); ++i)
        ax.push_back({an[i].data(), ar[i].first, ar[i].second});
    std::vector<int> d;
    {
        std::stringstream ss(a[20]);
        std::string       t;
        while (std::getline(ss, t, ','))
            d.push_back(std::stoi(t));
    }
    CncDefaultValues c{static_cast<EMotion>(d[0]),
                       static_cast<EWorkPlane>(d[1]),
                       static_cast<EDriverUnits>(d[2]),
                       static_cast<EProgrammingType>(d[3]),
                       static_cast<EFeedMode>(d[4]),
                       static_cast<ERotationDirection>(d[5]),
                       static_cast<EDepthProgrammingType>(d[6]),
                       static_cast<EDrillGreturnMode>(d[7]),
                       d[8],
                       d[9] != 0,
                       d[10] != 0,
                       d[11] != 0,
                       d[12] != 0,
                       d[13] != 0,
                       d[14] != 0,
                       d[15] != 0,
                       d[16] != 0};
    std::stringstream zs(a[21]);
    std::string       t;
    std::vector<double> z;
    while (std::getline(zs, t, ','))
        z.push_back(std::stod(t));
    ZeroPoint zp{z[0], z[1], z[2]};
    SetNCSettings(w, static_cast<EMachineTool>(std::stoi(a[2])), static_cast<EMachineToolType>(std::stoi(a[3])),
                  mkp.data(), mv.data(), static_cast<int>(mv.size()), tkp.data(), tv.data(),
                  static_cast<int>(tv.size()), &k, ax.data(), static_cast<int>(ax.size()), &c, &zp);
}

static std::string path_json(AllAttributesParserWrapperBase* w)
{
    PathResultWrapper* pr = nullptr;
    TimeResultWrapper* tr = nullptr;
    WordResultRange*   wr = nullptr;
    int                n = 0, u = -1;
    GetPathValues(w, pr, tr, &wr, &n, &u);
    std::string r = "\"pr\":[" + jnum(pr->total) + "," + jnum(pr->work_motion) + "," + jnum(pr->fast_motion) + "," +
                    jnum(pr->tool_total) + "," + jstr(pr->tool_id) + "],\"tr\":[" + jnum(tr->total) + "," +
                    jnum(tr->work_motion) + "," + jnum(tr->fast_motion) + "," + jnum(tr->tool_total) + "," +
                    jstr(tr->tool_id) + "],\"wr\":{";
    for (int i = 0; i < n; ++i)
    {
        if (i)
            r += ",";
        r += jstr(wr[i].word) + ":[" + jnum(wr[i].value_min) + "," + jnum(wr[i].value) + "," + jnum(wr[i].value_max) +
             "]";
    }
    r += "},\"us\":" + std::to_string(u);
    DisposePathValues(pr, tr, wr, n);
    return r;
}

static std::string run(Ctx& cx, std::vector<std::string>& a)
{
    const std::string& c = a[0];
    if (c == "gr")
    {
        auto& p = profiles[a[1]];
        Word  w{a[3],
               std::stoi(a[4]),
               std::stoi(a[5]),
               static_cast<unsigned>(std::stoul(a[6])),
               static_cast<unsigned>(std::stoul(a[7])),
               a[8] == "1",
               std::stoi(a[9])};
        (a[2] == "M" ? p.metric : p.imperial).push_back(w);
        return "";
    }
    if (c == "op")
    {
        profiles[a[1]].ops.push_back(a[2]);
        return "";
    }
    if (c == "gg" || c == "mg")
    {
        auto& p = profiles[a[1]];
        add_group(c == "gg" ? p.gg : p.mg, a[2], static_cast<unsigned>(std::stoul(a[3])),
                  static_cast<unsigned>(std::stoul(a[4])));
        return "";
    }
    if (c == "new")
    {
        if (cx.ps.count(a[1]))
            DisposeAllAttributesParser(cx.ps[a[1]]);
        cx.ps[a[1]] = make_fanuc(profiles.at(a[2]), a);
        return "";
    }
    if (c == "newh")
    {
        ParserSettings s{a[3] == "1", a[4] == "1", a[5] == "1", a[6] == "1", a[7] == "1"};
        OtherSettings  o{static_cast<ELanguage>(std::stoi(a[2]))};
        if (cx.ps.count(a[1]))
            DisposeAllAttributesParser(cx.ps[a[1]]);
        cx.ps[a[1]] = heidenhain::CreateHeidenhainAllAttributesParser(&s, &o, true);
        return "";
    }
    if (c == "echo")
        return "\"e\":" + jstr(a[1].c_str());
    auto* w = cx.ps.at(a[1]);
    if (c == "del")
    {
        DisposeAllAttributesParser(w);
        cx.ps.erase(a[1]);
        return "";
    }
    if (c == "nc")
    {
        nc(w, a);
        return "";
    }
    if (c == "ps")
    {
        ParserSettings s{a[2] == "1", a[3] == "1", a[4] == "1", a[5] == "1", a[6] == "1"};
        SetParserSettings(w, &s);
        return "";
    }
    if (c == "p")
    {
        char*       m = nullptr;
        bool        r = Parse(w, std::stoi(a[2]), a[3].c_str(), &m, true);
        std::string s = std::string("\"r\":") + (r ? "true" : "false") + ",\"m\":" + jstr(m);
        DisposeCharArray(m);
        return s;
    }
    WordValueWrapper* v = nullptr;
    int               n = 0;
    char*             m = nullptr;
    bool              r = false;
    auto              finish = [&]() {
        std::string s = std::string("\"r\":") + (r ? "true" : "false") + ",\"m\":" + jstr(m) + ",\"w\":" +
                        words_json(v, n);
        DisposeCharArray(m);
        DisposeWordValueWrapper(v, n);
        return s;
    };
    if (c == "v" || c == "pg")
    {
        r      = ParseValue(w, std::stoi(a[2]), a[3].c_str(), &v, &n, &m, true);
        auto s = finish();
        if (c == "pg")
            s += "," + path_json(w);
        return s;
    }
    if (c == "gp")
        return path_json(w);
    if (c == "mv")
    {
        int *   ids = nullptr, *lines = nullptr;
        double* vals = nullptr;
        GetMacroValues(w, &ids, &lines, &vals, &n);
        std::string s = "\"mv\":[";
        for (int i = 0; i < n; ++i)
            s += std::string(i ? "," : "") + "[" + std::to_string(ids[i]) + "," + std::to_string(lines[i]) + "," +
                 jnum(vals[i]) + "]";
        DisposeMacroValues(ids, lines, vals);
        return s + "]";
    }
    if (c == "lm")
    {
        int*    ids  = nullptr;
        double* vals = nullptr;
        GetLineMacroValues(w, std::stoi(a[2]), &ids, &vals, &n);
        std::string s = "\"lm\":[";
        for (int i = 0; i < n; ++i)
            s += std::string(i ? "," : "") + "[" + std::to_string(ids[i]) + "," + jnum(vals[i]) + "]";
        DisposeMacroValues(ids, nullptr, vals);
        return s + "]";
    }
    if (c == "rm")
    {
        ResetMacroValues(w);
        return "";
    }
    if (c == "rp")
    {
        ResetPathValues(w);
        return "";
    }
    if (c == "cl")
    {
        r = ConvertLength(w, std::stoi(a[2]), a[3].c_str(), &v, &n, &m, true,
                          static_cast<UnitConversionType>(std::stoi(a[4])));
        return finish();
    }
    if (c == "rn")
    {
        r = RemoveNumbering(w, std::stoi(a[2]), a[3].c_str(), &v, &n, &m, true);
        return finish();
    }
    if (c == "rnm")
    {
        RenumberSettingsWrapper rs{a[4].data(),
                                   static_cast<unsigned>(std::stoul(a[5])),
                                   static_cast<unsigned>(std::stoul(a[6])),
                                   static_cast<unsigned>(std::stoul(a[7])),
                                   a[8] == "1",
                                   a[9] == "1"};
        r = Renumber(w, std::stoi(a[2]), a[3].c_str(), &v, &n, &m, true, &rs);
        return finish();
    }
    if (c == "srn")
    {
        SetRenumberStartValue(w, static_cast<unsigned>(std::stoul(a[2])));
        return "";
    }
    if (c == "rr")
    {
        RenumberReset(w);
        return "";
    }
    if (c == "ra")
    {
        r = RotateAxes(w, std::stoi(a[2]), a[3].c_str(), &v, &n, &m, true,
                       static_cast<AxesRotatingOption>(std::stoi(a[4])));
        return finish();
    }
    if (c == "rc")
    {
        r = RemoveComment(w, std::stoi(a[2]), a[3].c_str(), &v, &n, &m, true);
        return finish();
    }
    if (c == "rob")
    {
        r = RemoveOptionalBlock(w, std::stoi(a[2]), a[3].c_str(), &v, &n, &m, true);
        return finish();
    }
    if (c == "sf" || c == "sfs")
    {
        // sf id type step time path text rapid_only retraction line...
        FileSplittingWrapper f{static_cast<FileSplittingType>(std::stoi(a[2])),
                               std::stoi(a[3]),
                               std::stoi(a[4]),
                               std::stoi(a[5]),
                               a[6].data(),
                               a[7] == "1",
                               a[8].data()};
        std::vector<const char*> d;
        for (size_t i = 9; i < a.size(); ++i)
            d.push_back(a[i].c_str());
        if (c == "sf")
        {
            int *vvl = nullptr, *vl = nullptr;
            r        = SplitFile(w, &f, d.data(), static_cast<int>(d.size()), &v, &vvl, &vl, &n, &m, true);
            std::string       s = std::string("\"r\":") + (r ? "true" : "false") + ",\"m\":" + jstr(m) + ",\"ch\":[";
            WordValueWrapper* p = v;
            int               cnt = 0;
            for (int x = 0; x < n; ++x)
            {
                s += x ? ",[" : "[";
                for (int y = 0; y < vl[x]; ++y, ++cnt)
                {
                    s += y ? "," : "";
                    s += words_json(p, vvl[cnt]);
                    p += vvl[cnt];
                }
                s += "]";
            }
            s += "]";
            DisposeCharArray(m);
            DisposeSplitFile(v, vvl, vl, n);
            return s;
        }
        char** out = nullptr;
        r          = SplitFileString(w, &f, d.data(), static_cast<int>(d.size()), &out, &n, &m, true);
        std::string s = std::string("\"r\":") + (r ? "true" : "false") + ",\"m\":" + jstr(m) + ",\"ch\":[";
        for (int x = 0; x < n; ++x)
            s += std::string(x ? "," : "") + jstr(out[x]);
        s += "]";
        DisposeCharArray(m);
        DisposeSplitFileString(out, n);
        return s;
    }
    throw std::logic_error("bad command " + c);
}

static void loop(std::istream& in, std::string* sink)
{
    Ctx         cx;
    std::string line;
    while (std::getline(in, line))
    {
        std::vector<std::string> a;
        size_t                   s = 0;
        for (;;)
        {
            auto e = line.find('\t', s);
            a.push_back(undec(line.substr(s, e == std::string::npos ? e : e - s)));
            if (e == std::string::npos)
                break;
            s = e + 1;
        }
        std::string o;
        try
        {
            o = run(cx, a);
        }
        catch (const std::exception& e)
        {
            o = "\"exc\":" + jstr(e.what());
        }
        catch (...)
        {
            o = "\"exc\":\"non-std exception\"";
        }
        if (a[0] == "gr" || a[0] == "op" || a[0] == "gg" || a[0] == "mg")
            continue;
        o = "{" + o + "}\n";
        if (sink)
            *sink += o;
        else
        {
            fwrite(o.data(), 1, o.size(), stdout);
            fflush(stdout);
        }
    }
}

// pdrv            : script on stdin
// pdrv -t F1 F2 ..: first file holds the shared profile commands; every further file is a script run in a thread of
//                   its own, all at the same time; events are printed per script, in order, separated by "---"
int main(int argc, char** argv)
{
    if (argc > 2 && std::string(argv[1]) == "-t")
    {
        auto slurp = [](const char* f) {
            std::string r;
            if (FILE* h = fopen(f, "rb"))
            {
                char   b[65536];
                size_t n;
                while ((n = fread(b, 1, sizeof b, h)) > 0)
                    r.append(b, n);
                fclose(h);
            }
            return r;
        };
        {
            std::istringstream is(slurp(argv[2]));
            loop(is, nullptr);
        }
        std::vector<std::string> texts, outs(argc - 3);
        for (int i = 3; i < argc; ++i)
            texts.push_back(slurp(argv[i]));
        std::vector<std::thread> ts;
        for (size_t i = 0; i < texts.size(); ++i)
            ts.emplace_back([&, i]() {
                std::istringstream is(texts[i]);
                loop(is, &outs[i]);
            });
        for (auto& t : ts)
            t.join();
        for (auto& o : outs)
        {
            fwrite(o.data(), 1, o.size(), stdout);
            fputs("---\n", stdout);
        }
        return 0;
    }
    loop(std::cin, nullptr);
    return 0;
}
