// Worker: runs the cases  from, from+stride, ... < to  of one property.
#include "common.hpp"
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vf {
std::map<std::string, CaseFn>& registry() { static std::map<std::string, CaseFn> r; return r; }
}

int main(int argc, char** argv)
{
    using namespace vf;
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    Ctx c;
    c.prop = a["--prop"];
    c.seed = std::strtoull(a["--seed"].c_str(), nullptr, 10);
    c.thorough = a["--tier"] == "thorough";
    c.verbose = a.count("--verbose") > 0;
    // A case stream can be borrowed by another property (C26, C31): --prop is then the stream's name.
    const auto it = registry().find(c.prop);
    if (it == registry().end()) { std::fprintf(stderr, "no such property: %s\n", c.prop.c_str()); return 3; }
    const long long from = std::atoll(a["--from"].c_str()), to = std::atoll(a["--to"].c_str());
    const long long stride = a.count("--stride") ? std::atoll(a["--stride"].c_str()) : 1;
    volatile long long* prog = nullptr; static long long dummy[2]; prog = dummy;
    if (a.count("--progress")) {
        const int fd = open(a["--progress"].c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 16) != 0) { std::perror("progress"); return 3; }
        void* m = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { std::perror("mmap"); return 3; }
        prog = static_cast<volatile long long*>(m);
    }
    long long ticks = 0;
    c.tick = [&] { prog[1] = ++ticks; };
    FILE* digests = a.count("--digests") ? std::fopen(a["--digests"].c_str(), "w") : nullptr;
    long long done = 0; std::size_t written = 0;
    for (long long k = from; k < to; k += stride) {
        prog[0] = k;
        c.idx = k; c.caseFailed = false; c.dig = Digest{};
        Rng rng(c.caseSeed());
        try { it->second(c, rng); }
        catch (const std::exception& e) { c.fail("exception", cat("unexpected exception on valid input: ", e.what())); }
        catch (...) { c.fail("exception", "unexpected exception of unknown type on valid input"); }
        ++done;
        c.tick();
        if (a.count("--out")) for (; written < c.violations.size(); ++written) { // at once, in case a later case does not end
            const auto& v = c.violations[written];
            if (FILE* f = std::fopen((a["--out"] + ".v").c_str(), "a")) { std::fprintf(f, "{\"idx\": %lld, \"key\": \"%s\", \"msg\": \"%s\"}\n", v.idx, esc(v.key).c_str(), esc(v.msg).c_str()); std::fclose(f); }
        }
        if (digests) std::fprintf(digests, "%lld %016llx\n", k, (unsigned long long)c.dig.h);
        if (c.violations.size() >= 3) break;
    }
    if (digests) std::fclose(digests);
    prog[0] = -1;
    if (a.count("--out")) {
        FILE* f = std::fopen(a["--out"].c_str(), "w");
        if (!f) { std::perror("out"); return 3; }
        std::fprintf(f, "{\"done\": %lld, \"violations\": [", done);
        for (std::size_t i = 0; i < c.violations.size(); ++i) {
            const auto& v = c.violations[i];
            std::fprintf(f, "%s{\"idx\": %lld, \"key\": \"%s\", \"msg\": \"%s\"}", i ? ", " : "", v.idx, esc(v.key).c_str(), esc(v.msg).c_str());
        }
        std::fprintf(f, "], \"stats\": {");
        bool first = true;
        for (const auto& s : c.stats) { std::fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(s.first).c_str(), (unsigned long long)s.second); first = false; }
        std::fprintf(f, "}, \"samples\": [");
        for (std::size_t i = 0; i < c.samples.size(); ++i) std::fprintf(f, "%s\"%s\"", i ? ", " : "", esc(c.samples[i]).c_str());
        std::fprintf(f, "], \"hashes\": [");
        first = true;
        for (auto h : c.distinct) { std::fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
        std::fprintf(f, "]}\n");
        std::fclose(f);
    }
    return c.violations.empty() ? 0 : 10;
}
