#include "mc.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace mc
{
bool thorough = false;
bool logging = false;

namespace
{
constexpr int kMaxPath = 4096;
struct Slot                       // shared between a worker and the parent
{
    volatile uint64_t execs, steps;
    volatile int depth;
    int path[kMaxPath], width[kMaxPath];
    volatile int failed;
    volatile pid_t child;         // the process of the current execution (isolated mode)
    char msg[4096];
    volatile int done;
    uint64_t executions, transitions, pruned, maxDepth, lastTransitions;
};
Slot localSlot;
Slot* slot = &localSlot;

struct Node { int choice, n; };
std::vector<Node> path;
size_t depth = 0;
int deviationsLeft = 0;
int shardIndex = 0, shardCount = 1, shardDepth = 0;
bool replaying = false;
std::vector<int> replayPath;
std::string logText;
uint64_t curTransitions = 0;

Scenario* head = nullptr;

// open-addressing set of 64 bit hashes
struct HashSet
{
    std::vector<uint64_t> t = std::vector<uint64_t>(1 << 12);
    size_t count = 0;
    bool add(uint64_t h)
    {
        if (h == 0) h = 0x5851F42D4C957F2Dull;
        if ((count + 1) * 2 > t.size()) grow();
        size_t i = h & (t.size() - 1);
        while (t[i]) { if (t[i] == h) return false; i = (i + 1) & (t.size() - 1); }
        t[i] = h; ++count;
        return true;
    }
    void grow()
    {
        auto old = std::move(t);
        t = std::vector<uint64_t>(old.size() * 2);
        count = 0;
        for (auto h : old) if (h) add(h);
    }
};
// the same of a fixed size, in memory shared with the processes of isolated executions
struct SharedSet
{
    static constexpr size_t kSize = 1 << 21;
    uint64_t t[kSize];
    int value[kSize];
    size_t count;
    // 0: full, else position + 1
    size_t find(uint64_t h, bool &fresh)
    {
        if (h == 0) h = 0x5851F42D4C957F2Dull;
        size_t i = h & (kSize - 1);
        while (t[i]) { if (t[i] == h) { fresh = false; return i + 1; } i = (i + 1) & (kSize - 1); }
        fresh = true;
        if ((count + 1) * 2 > kSize) return 0;
        t[i] = h; ++count;
        return i + 1;
    }
    void add(uint64_t h) { bool fresh; find(h, fresh); }
};
bool isolate = false;
struct Shared { SharedSet states, outcomes, visited; } *shared = nullptr;
HashSet* states;
HashSet* outcomes;
std::unordered_map<uint64_t, int>* visited;

[[noreturn]] void die(const char* kind, const char* text)
{
    snprintf(slot->msg, sizeof slot->msg, "%s%s", kind, text);
    slot->failed = 1;
    if (replaying || logging) { fputs(logText.c_str(), stdout); printf("FAIL: %s\n", slot->msg); fflush(stdout); }
    _exit(10);
}
}

Scenario::Scenario(const char* name, int shards, int shardDepth, void (*body)(), bool thoroughOnly)
: name(name), shards(shards), shardDepth(shardDepth), body(body), thoroughOnly(thoroughOnly), next(nullptr)
{
    Scenario** p = &head;
    while (*p) p = &(*p)->next;
    *p = this;
}

int choose(int n, const char* what)
{
    if (n <= 0) die("", "harness error: empty choice");
    int c;
    if (replaying)
    {
        c = depth < replayPath.size() ? replayPath[depth] : 0;
        if (c >= n) die("replay divergence", "");
        ++depth;
    }
    else
    {
        if (depth == path.size()) path.push_back({ 0, n });
        else if (path[depth].n != n) die("DIVERGENCE: ", what);   // not deterministic: hard error
        c = path[depth].choice;
        if (depth < kMaxPath) { slot->path[depth] = c; slot->width[depth] = n; }
        else if (isolate) die("", "harness error: path too long");
        ++depth;
        slot->depth = int(depth);
        if (shardCount > 1 && int(depth) == shardDepth)
        {
            Hash h;
            for (int i = 0; i < shardDepth; ++i) h.u(path[i].choice);
            if (int(uint64_t(h) % shardCount) != shardIndex) throw Prune {};
        }
    }
    if (logging && *what) note("%s=%d/%d", what, c, n);
    return c;
}

void budget(int deviations) { deviationsLeft = deviations; }

int deviate(int n, const char* what)
{
    if (deviationsLeft <= 0) return 0;
    int c = choose(n, what);
    if (c) --deviationsLeft;
    return c;
}

void fail(const char* fmt, ...)
{
    char text[3000];
    va_list ap; va_start(ap, fmt); vsnprintf(text, sizeof text, fmt, ap); va_end(ap);
    die("", text);
}

void note(const char* fmt, ...)
{
    if (!logging) return;
    char text[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(text, sizeof text, fmt, ap); va_end(ap);
    if (logText.size() < 20000) { logText += "  "; logText += text; logText += '\n'; }
}

void step() { ++curTransitions; slot->steps = slot->steps + 1; }
void step(uint64_t n) { curTransitions += n; slot->steps = slot->steps + 1; }
void state(uint64_t h) { if (shared) shared->states.add(h); else if (states) states->add(h); }
void outcome(uint64_t h) { if (shared) shared->outcomes.add(h); else if (outcomes) outcomes->add(h); }

bool seen(uint64_t h, int remaining)
{
    if (!visited || depth < path.size()) return false;   // replaying a prefix: already accounted for
    if (shared)
    {
        bool fresh;
        const size_t i = shared->visited.find(h, fresh);
        if (fresh) { if (i) shared->visited.value[i - 1] = remaining; return false; }
        if (shared->visited.value[i - 1] >= remaining) return true;
        shared->visited.value[i - 1] = remaining;
        return false;
    }
    auto [it, fresh] = visited->try_emplace(h, remaining);
    if (fresh) return false;
    if (it->second >= remaining) return true;
    it->second = remaining;
    return false;
}

std::string hex(const void* p, size_t n)
{
    std::string r; char b[4];
    for (size_t i = 0; i < n && i < 200; ++i) { snprintf(b, sizeof b, "%02x", static_cast<const unsigned char*>(p)[i]); r += b; }
    return r;
}
std::string esc(const std::string &s)
{
    std::string r; char b[6];
    for (unsigned char c : s) { if (r.size() > 300) { r += "..."; break; } if (c >= 32 && c < 127 && c != '\\') r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r;
}

namespace
{
void runOnce(Scenario* s)
{
    depth = 0; deviationsLeft = 0; curTransitions = 0;
    slot->depth = 0;
    try { s->body(); }
    catch (const Prune &) { throw; }
    catch (const std::exception &e) { fail("unexpected exception: %s", e.what()); }
}

std::string jsonStr(const std::string &s)
{
    std::string r = "\""; char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

void worker(Scenario* s, int index, int count, const std::string &base)
{
    HashSet st, oc; states = &st; outcomes = &oc;
    std::unordered_map<uint64_t, int> vis; visited = &vis;
    shardIndex = index; shardCount = count; shardDepth = s->shardDepth;
    std::string samples;
    if (isolate)
    {
        shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (shared == MAP_FAILED) die("", "harness error: no memory");
    }
    for (;;)
    {
        logging = index == 0 && (slot->execs == 0 || slot->execs == 101 || slot->execs == 10007);
        logText.clear();
        bool pruned = false;
        if (isolate)
        {
            // one process per execution: nothing the code under test keeps can reach the next one
            const pid_t pid = fork();
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                int status = 0;
                try { runOnce(s); }
                catch (const Prune &) { status = 9; }
                slot->lastTransitions = curTransitions;
                _exit(status);
            }
            if (pid < 0) die("", "harness error: fork");
            slot->child = pid;
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            slot->child = 0;
            if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(98); }
            if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9) _exit(WEXITSTATUS(st));
            pruned = WEXITSTATUS(st) == 9;
            curTransitions = slot->lastTransitions;
            depth = size_t(slot->depth);
            for (size_t i = path.size(); i < depth; ++i) path.push_back({ slot->path[i], slot->width[i] });
        }
        else
        {
            try { runOnce(s); }
            catch (const Prune &) { pruned = true; }
        }
        if (!(pruned && count > 1 && int(depth) <= shardDepth) && !(count > 1 && index > 0 && int(depth) < shardDepth))
        {
            if (pruned) ++slot->pruned; else ++slot->executions;
            slot->transitions += curTransitions;
            if (depth > slot->maxDepth) slot->maxDepth = depth;
            if (logging && !pruned && !logText.empty())
            {
                if (!samples.empty()) samples += ',';
                samples += jsonStr(logText.substr(0, 1500));
            }
        }
        slot->execs = slot->execs + 1;
        logging = false;
        // next path: what lies beyond the depth reached this time is stale
        if (path.size() != depth) { if (path.size() > depth && !pruned) die("DIVERGENCE: ", "shorter execution on replay"); path.resize(depth); }
        while (!path.empty() && path.back().choice + 1 >= path.back().n) path.pop_back();
        if (path.empty()) break;
        ++path.back().choice;
    }
    auto dump = [](const std::string &name, HashSet &h)
    {
        FILE* f = fopen(name.c_str(), "wb");
        if (!f) return false;
        for (auto v : h.t) if (v) fwrite(&v, 8, 1, f);
        return fclose(f) == 0;
    };
    if (shared)
    {
        for (auto h : shared->states.t) if (h) st.add(h);
        for (auto h : shared->outcomes.t) if (h) oc.add(h);
    }
    if (!dump(base + ".states", st) || !dump(base + ".outcomes", oc)) _exit(12);
    if (FILE* f = fopen((base + ".samples").c_str(), "w")) { fputs(samples.c_str(), f); fclose(f); }
    slot->done = 1;
    _exit(0);
}

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// resident memory of a process this one started
long residentMB(pid_t pid)
{
    FILE* f = fopen(("/proc/" + std::to_string(pid) + "/statm").c_str(), "r");
    if (!f) return 0;
    long total = 0, resident = 0, both = 0;
    const bool ok = fscanf(f, "%ld %ld %ld", &total, &resident, &both) == 3;
    fclose(f);
    return ok ? (resident - both) * (sysconf(_SC_PAGESIZE) / 1024) / 1024 : 0;
}
constexpr long kMemoryMB = 3000;

std::string readFile(const std::string &n, size_t limit = 6000)
{
    std::string r; FILE* f = fopen(n.c_str(), "r"); if (!f) return r;
    char b[4096]; size_t k; while (r.size() < limit && (k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
    fclose(f); return r;
}

size_t countUnion(const std::vector<std::string> &files)
{
    std::vector<uint64_t> all;
    for (auto &n : files)
    {
        FILE* f = fopen(n.c_str(), "rb"); if (!f) continue;
        uint64_t b[4096]; size_t k;
        while ((k = fread(b, 8, 4096, f)) > 0) all.insert(all.end(), b, b + k);
        fclose(f); unlink(n.c_str());
    }
    std::sort(all.begin(), all.end());
    return std::unique(all.begin(), all.end()) - all.begin();
}
}
}

using namespace mc;

static std::string pathText(const Slot* s)
{
    std::string r;
    for (int i = 0; i < s->depth && i < kMaxPath; ++i) { if (i) r += ','; r += std::to_string(s->path[i]); }
    return r;
}

int main(int argc, char** argv)
{
    std::string out, dir = ".", replay, scen, only;
    int jobs = 8; double hang = 30;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--out") out = val();
        else if (a == "--dir") dir = val();
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--hang") hang = atof(val().c_str());
        else if (a == "--thorough") thorough = true;
        else if (a == "--isolate") isolate = true;
        else if (a == "--scenario") scen = val();
        else if (a == "--only") only = val();
        else if (a == "--replay") { replay = val(); replaying = true; }
        else if (a == "--list") { for (auto s = head; s; s = s->next) puts(s->name); return 0; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if (replaying)
    {
        for (size_t p = 0; p < replay.size();)
        {
            replayPath.push_back(atoi(replay.c_str() + p));
            p = replay.find(',', p); if (p == std::string::npos) break; ++p;
        }
        logging = true;
        fflush(nullptr);
        // in a process of its own, so that its memory can be watched
        const pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid > 0)
        {
            for (;;)
            {
                int st;
                if (waitpid(pid, &st, WNOHANG) == pid) return WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
                if (residentMB(pid) > kMemoryMB) { kill(pid, SIGKILL); waitpid(pid, &st, 0); puts("FAIL: memory without bounds"); return 11; }
                usleep(2000);
            }
        }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (auto s = head; s; s = s->next) if (scen == s->name)
        {
            try { runOnce(s); } catch (const Prune &) {}
            fputs(logText.c_str(), stdout);
            puts("replay: property held");
            fflush(stdout);
            _exit(0);
        }
        fprintf(stderr, "no scenario %s\n", scen.c_str());
        _exit(2);
    }
    struct Task { Scenario* s; int idx; pid_t pid = 0; Slot* slot = nullptr; std::string base; uint64_t last = 0; double since = 0; };
    std::vector<Task> tasks;
    for (auto s = head; s; s = s->next)
    {
        if (s->thoroughOnly && !thorough) continue;
        if (!only.empty() && only != s->name) continue;
        for (int i = 0; i < s->shards; ++i)
        {
            Task t; t.s = s; t.idx = i;
            t.base = dir + "/" + s->name + "." + std::to_string(i);
            t.slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            tasks.push_back(t);
        }
    }
    size_t next = 0, running = 0, rounds = 0;
    Task* bad = nullptr; std::string kind;
    while ((next < tasks.size() || running) && !bad)
    {
        while (running < size_t(jobs) && next < tasks.size())
        {
            Task &t = tasks[next++];
            fflush(nullptr);
            t.pid = fork();
            if (t.pid == 0)
            {
                slot = t.slot;
                int fd = open((t.base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 2); dup2(fd, 1);
                worker(t.s, t.idx, t.s->shards, t.base);
            }
            if (t.pid < 0) { perror("fork"); return 2; }
            t.since = now(); ++running;
        }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0)
        {
            for (auto &t : tasks) if (t.pid == p)
            {
                --running; t.pid = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && t.slot->done) {}
                else if (t.slot->failed) { bad = &t; kind = "check"; }
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 12) { fprintf(stderr, "cannot write state file\n"); return 2; }
                else { bad = &t; kind = WIFSIGNALED(st) ? "crash (signal " + std::to_string(WTERMSIG(st)) + ")" : "crash (exit " + std::to_string(WEXITSTATUS(st)) + ")"; }
            }
        }
        else
        {
            const bool watch = ++rounds % 25 == 0;
            for (auto &t : tasks) if (t.pid)
            {
                uint64_t v = t.slot->execs + t.slot->steps;
                if (v != t.last) { t.last = v; t.since = now(); }
                else if (now() - t.since > hang) { bad = &t; kind = "hang"; kill(t.pid, SIGKILL); }
                if (watch && !bad && (residentMB(t.pid) > kMemoryMB || (t.slot->child && residentMB(t.slot->child) > kMemoryMB)))
                { bad = &t; kind = "memory"; kill(t.pid, SIGKILL); }
            }
            usleep(2000);
        }
    }
    if (bad) for (auto &t : tasks) if (t.pid) { kill(t.pid, SIGKILL); waitpid(t.pid, nullptr, 0); }

    std::string js = "{\n \"scenarios\": [";
    bool first = true;
    for (auto s = head; s; s = s->next)
    {
        uint64_t ex = 0, tr = 0, pr = 0, md = 0; bool any = false, all = true;
        std::vector<std::string> sf, of; std::string samples;
        for (auto &t : tasks) if (t.s == s)
        {
            any = true; all = all && t.slot->done;
            ex += t.slot->executions; tr += t.slot->transitions; pr += t.slot->pruned; md = std::max<uint64_t>(md, t.slot->maxDepth);
            sf.push_back(t.base + ".states"); of.push_back(t.base + ".outcomes");
            if (t.idx == 0) samples = readFile(t.base + ".samples", 20000);
        }
        if (!any) continue;
        js += std::string(first ? "" : ",") + "\n  {\"name\": " + jsonStr(s->name) + ", \"completed\": " + (all ? "true" : "false")
            + ", \"executions\": " + std::to_string(ex) + ", \"transitions\": " + std::to_string(tr)
            + ", \"pruned\": " + std::to_string(pr) + ", \"max_choices\": " + std::to_string(md)
            + ", \"states\": " + std::to_string(countUnion(sf)) + ", \"outcomes\": " + std::to_string(countUnion(of))
            + ", \"samples\": [" + samples + "]}";
        first = false;
    }
    js += "\n ]";
    if (bad)
        js += ",\n \"failure\": {\"scenario\": " + jsonStr(bad->s->name) + ", \"shard\": " + std::to_string(bad->idx) + ", \"kind\": " + jsonStr(kind)
            + ", \"path\": " + jsonStr(pathText(bad->slot)) + ", \"message\": " + jsonStr(bad->slot->msg)
            + ", \"stderr\": " + jsonStr(readFile(bad->base + ".err")) + "}";
    js += "\n}\n";
    if (out.empty()) fputs(js.c_str(), stdout);
    else { FILE* f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(js.c_str(), f); fclose(f); }
    return bad ? 1 : 0;
}
