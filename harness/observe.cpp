// Runs groot (the sources of /repo) on scenarios and writes down what it does.
//
//   observe IN.ndjson OUT.ndjson SCRATCH
//
// Each input line is one scenario (see tools/gen.py).  Each scenario runs in a child process of its own with its own
// directory below SCRATCH, so that aborts, crashes and endless loops of the code under test are observations.
//
// With -DSCHED (tools/sched_build.py) the jobs run under the scheduler of sched/runtime.h; a scenario then has
// "sched": [seed, mode, most steps].
//
// The "black box" part only uses what the groot program itself uses (Driver's public functions and the files they
// write).  With -DWB_ZONES, -DWB_STATS, -DWB_LOOKUP, -DWB_ECS and -DWB_GRAPH (which needs WB_ECS) the zones, the
// totals, the answers of zones, the query classes and the interpretation graphs are written down as well, through the
// name that Driver declares as a friend for tests.  tools/build.py leaves out what does not compile.
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "driver.h"
#include "ec-task.h"
#include "structural-task.h"
#include "spdlog/sinks/null_sink.h"
#ifdef SCHED
#include "sched/runtime.h"
#endif

using std::string;

static json Parsed(const string &text)
{
    try {
        return json::parse(text);
    } catch (...) {
        return json{{"malformed", text}};
    }
}

static string Slurp(const string &path)
{
    std::ifstream in(path, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}

static string Dump(const json &j)
{
    return j.dump(-1, ' ', true, json::error_handler_t::replace);
}

#if defined(WB_ZONES) || defined(WB_STATS) || defined(WB_LOOKUP) || defined(WB_ECS)
#define WB_ANY
#endif

#if defined(WB_LOOKUP) || defined(WB_ECS)
static json TypeList(const std::bitset<RRType::N> &types)
{
    json r = json::array();
    for (int i = 0; i < RRType::N; i++)
        if (types[i])
            r.push_back(TypeUtils::TypeToString(static_cast<RRType>(i)));
    return r;
}

#endif

#if defined(WB_ZONES) || defined(WB_LOOKUP) || defined(WB_GRAPH)
static json Record(ResourceRecord rr)
{
    return json::array({LabelUtils::LabelsToString(rr.get_name()), TypeUtils::TypeToString(rr.get_type()),
                        std::to_string(rr.get_ttl()), rr.get_rdata()});
}

#endif

#if defined(WB_LOOKUP) || defined(WB_GRAPH)
static string Tag(ReturnTag t)
{
    switch (t) {
    case ReturnTag::ANS: return "ANS";
    case ReturnTag::REWRITE: return "REWRITE";
    case ReturnTag::REF: return "REF";
    case ReturnTag::NX: return "NX";
    case ReturnTag::REFUSED: return "REFUSED";
    case ReturnTag::NSNOTFOUND: return "NSNOTFOUND";
    case ReturnTag::YX: return "YX";
    }
    return "?";
}

static json Answers(const boost::optional<std::vector<zone::LookUpAnswer>> &a)
{
    json r = json::array();
    if (a) {
        for (auto &ans : a.get()) {
            json rrs = json::array();
            for (auto &rr : std::get<2>(ans))
                rrs.push_back(Record(rr));
            r.push_back(json::array({Tag(std::get<0>(ans)), TypeList(std::get<1>(ans)), rrs}));
        }
    }
    return r;
}

#endif

#ifdef WB_ECS
static json Query(const EC &q)
{
    return json{{"n", LabelUtils::LabelsToString(q.name)}, {"t", TypeList(q.rrTypes)}, {"x", q.excluded ? true : false}};
}

#endif

#ifdef WB_LOOKUP
static std::bitset<RRType::N> Types(const json &l)
{
    std::bitset<RRType::N> r;
    for (string t : l)
        r.set(TypeUtils::StringToType(t));
    return r;
}

#endif

#ifdef WB_ANY
class DriverTest
{
  public:
#ifdef WB_ZONES
    static json Zones(Driver &d)
    {
        json r = json::array();
        std::vector<int> ids;
        for (auto &z : d.context_.zoneId_to_zone)
            ids.push_back(z.first);
        std::sort(ids.begin(), ids.end());
        for (int id : ids) {
            const zone::Graph &z = d.context_.zoneId_to_zone.at(id);
            json rrs = json::array();
            for (auto v : boost::make_iterator_range(vertices(z)))
                for (auto &rr : z[v].rrs)
                    rrs.push_back(Record(rr));
            r.push_back(json{{"id", id},
                             {"ns", d.context_.zoneId_nameserver_map.at(id).get()},
                             {"origin", LabelUtils::LabelsToString(z.get_origin())},
                             {"rrs", rrs}});
        }
        return r;
    }
#endif
#ifdef WB_STATS
    static json Stats(Driver &d)
    {
        json r = json::array();
        for (auto &p : d.context_.type_to_rr_count)
            if (p.second)
                r.push_back(json::array({p.first, std::to_string(p.second)}));
        return r;
    }
#endif
#ifdef WB_LOOKUP
    static json Lookups(Driver &d, const json &queries)
    {
        json r = json::array();
        for (auto &q : queries) {
            auto it = d.context_.zoneId_to_zone.find(q[0].get<int>());
            if (it == d.context_.zoneId_to_zone.end()) {
                r.push_back(json::array());
                continue;
            }
            EC ec;
            ec.name = LabelUtils::StringToLabels(q[1].get<string>());
            ec.rrTypes = Types(q[2]);
            if (q[3].get<bool>())
                ec.excluded = boost::make_optional(std::vector<NodeLabel>());
            bool complete = false;
            r.push_back(Answers(it->second.QueryLookUpAtZone(ec, complete)));
        }
        return r;
    }
#endif
#ifdef WB_GRAPH
    static json Graph(Driver &d, const EC &ec)
    {
        interpretation::Graph g(ec, d.context_);
        json nodes = json::array(), edges = json::array();
        for (auto v : boost::make_iterator_range(vertices(g)))
            nodes.push_back(json{{"ns", g[v].ns}, {"q", Query(g[v].query)}, {"a", Answers(g[v].answer)}});
        for (auto e : boost::make_iterator_range(boost::edges(g)))
            edges.push_back(json::array({e.m_source + 1, e.m_target + 1,
                                         g[e].intermediate_query ? g[e].intermediate_query.get() + 1 : 0}));
        return json{{"ec", Query(ec)}, {"ne", ec.nonExistent}, {"nodes", nodes}, {"edges", edges}};
    }
#endif
#ifdef WB_ECS
    static json Job(Driver &d, const json &job, bool graphs, size_t max_graphs)
    {
        SetJob(d, job);
        d.label_graph_.GenerateECs(d.current_job_, d.context_);
        unique_ptr<Task> item;
        json ecs = json::array(), gs = json::array();
        long structural = 0, tasks = 0;
        std::set<string> seen;
        while (d.current_job_.ec_queue.try_dequeue(item)) {
            if (auto *t = dynamic_cast<ECTask *>(item.get())) {
                ++tasks;
                json e = Query(t->ec_);
                e["ne"] = t->ec_.nonExistent;
                if (!seen.insert(Dump(e)).second)
                    continue;
                ecs.push_back(e);
#ifdef WB_GRAPH
                if (graphs && gs.size() < max_graphs)
                    gs.push_back(Graph(d, t->ec_));
#endif
            } else {
                ++structural;
            }
        }
        return json{{"ecs", ecs}, {"graphs", gs}, {"tasks", tasks}, {"structural", structural}};
    }
    static void SetJob(Driver &d, const json &job)
    {
        if (job.is_string()) {
            string s = job.get<string>();
            d.SetJob(s);
        } else {
            d.SetJob(job);
        }
    }
#endif
};
#endif

static void SetJob(Driver &d, const json &job)
{
    if (job.is_string()) {
        string s = job.get<string>();
        d.SetJob(s);
    } else {
        d.SetJob(job);
    }
}

static void WriteObs(const string &path, const json &obs)
{
    std::ofstream o(path + ".tmp", std::ios::binary);
    o << Dump(obs);
    o.close();
    ::rename((path + ".tmp").c_str(), path.c_str());
}

// Runs in the child process, in the scenario's directory
static void RunScenario(const json &s, const string &obs_path)
{
    json meta;
    meta["TopNameServers"] = s["top"];
    meta["ZoneFiles"] = json::array();
    for (auto &z : s["zones"]) {
        std::ofstream f(z["file"].get<string>(), std::ios::binary);
        f << z["text"].get<string>();
        f.close();
        json e{{"FileName", z["file"]}, {"NameServer", z["ns"]}};
        if (z.count("origin") && z["origin"].get<string>().size())
            e["Origin"] = z["origin"];
        meta["ZoneFiles"].push_back(e);
    }
    bool lint = s.value("lint", false);
    if (lint)
        std::ofstream("lint.json") << "[\n"; // as bin/groot.cpp does
    json obs{{"id", s["id"]}, {"stage", "load"}, {"jobs", json::array()}};
    // Written now: stays when the run exits or crashes from here on
    WriteObs(obs_path, obs);
    Driver d;
    obs["parsed"] = d.SetContext(meta, ".", lint);
    if (lint) {
        std::ofstream("lint.json", std::ios::app) << "\n]";
        obs["lint"] = Parsed(Slurp("lint.json"));
        obs["lintraw"] = obs["lint"].is_object();
    } else {
        obs["lintfile"] = ::access("lint.json", F_OK) == 0;
    }
    obs["stage"] = "jobs";
    WriteObs(obs_path, obs);
#ifdef WB_ZONES
    obs["zones"] = DriverTest::Zones(d);
#endif
#ifdef WB_STATS
    obs["stats"] = DriverTest::Stats(d);
#endif
#ifdef WB_LOOKUP
    if (s.count("queries") && s["queries"].size())
        obs["lookups"] = DriverTest::Lookups(d, s["queries"]);
#endif
#ifdef SCHED
    // from here on one thread at a time, in an order that the seed determines
    sched::start(s["sched"][0].get<unsigned long>(), s["sched"][1].get<int>(), s["sched"][2].get<long>());
#endif
    for (auto &job : s["jobs"]) {
        SetJob(d, job);
        d.GenerateECsAndCheckProperties();
        json j{{"count", d.GetECCountForCurrentJob()}};
        d.WriteViolationsToFile("out.json");
        j["report"] = Parsed(Slurp("out.json"));
        obs["jobs"].push_back(j);
        WriteObs(obs_path, obs);
    }
#ifdef SCHED
    obs["trace"] = sched::trace();
    obs["steps"] = sched::steps();
#endif
#ifdef WB_ECS
    {
        Driver d2;
        d2.SetContext(meta, ".", false);
        bool graphs = s.value("graphs", false);
        size_t max_graphs = s.value("maxgraphs", 60);
        size_t i = 0;
        for (auto &job : s["jobs"])
            obs["jobs"][i++]["wb"] = DriverTest::Job(d2, job, graphs, max_graphs);
    }
#endif
    obs["stage"] = "done";
    WriteObs(obs_path, obs);
}

static void RemoveDir(const string &dir, const json &s)
{
    for (auto &z : s["zones"])
        ::unlink((dir + "/" + z["file"].get<string>()).c_str());
    for (const char *f : {"lint.json", "out.json", "obs", "obs.tmp", "core", "stdio"})
        ::unlink((dir + "/" + f).c_str());
    ::rmdir(dir.c_str());
}

int main(int argc, char **argv)
{
    if (argc != 4)
        return 2;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2], std::ios::binary);
    string scratch = argv[3];
    const char *lim = getenv("OBSERVE_TIMEOUT");
    int timeout = lim ? atoi(lim) : 20;
    string line;
    long n = 0;
    while (std::getline(in, line)) {
        if (line.empty())
            continue;
        json s = json::parse(line);
        string dir = scratch + "/s" + std::to_string(n++);
        ::mkdir(dir.c_str(), 0700);
        string obs_path = dir + "/obs";
        pid_t pid = fork();
        if (pid == 0) {
            if (::chdir(dir.c_str()) != 0)
                _exit(90);
            int fd = ::open("stdio", O_CREAT | O_WRONLY | O_TRUNC, 0600);
            ::dup2(fd, 1);
            ::dup2(fd, 2);
            struct rlimit cpu {static_cast<rlim_t>(timeout * 4), static_cast<rlim_t>(timeout * 4)};
            setrlimit(RLIMIT_CPU, &cpu);
            struct rlimit core {0, 0};
            setrlimit(RLIMIT_CORE, &core);
            struct rlimit as {3ul << 30, 3ul << 30};
            setrlimit(RLIMIT_AS, &as);
            ::alarm(timeout);
            RunScenario(s, "obs");
            _exit(0);
        }
        int status = 0;
        ::waitpid(pid, &status, 0);
        string text = Slurp(obs_path);
        json obs = text.size() ? json::parse(text) : json{{"id", s["id"]}, {"stage", "start"}, {"jobs", json::array()}};
        string end = "ok";
        if (WIFSIGNALED(status))
            end = WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGXCPU ? "timeout" : "crash";
        else if (WEXITSTATUS(status) != 0)
            end = "exit";
        obs["end"] = end;
        obs["status"] = status;
        if (end != "ok")
            obs["stdio"] = Slurp(dir + "/stdio").substr(0, 600);
        out << Dump(obs) << "\n";
        out.flush();
        RemoveDir(dir, s);
    }
    return 0;
}
