// Bounded conformance harness: content-defined chunking of files against an own implementation of FastCDC.
#include <filesystem>
#include "common.hpp"

#include "src/buildtool/storage/file_chunker.hpp"

static std::uint64_t gear[256];
static std::size_t own_cut(std::string const& s, std::size_t at) {
    std::size_t const mn = 32 * 1024, avg = 128 * 1024, mx = 1024 * 1024;
    auto n = s.size() - at;
    if (n <= mn) return n;
    if (n > mx) n = mx;
    std::uint64_t fp = 0;
    for (std::size_t i = mn; i < n; ++i) {
        fp = (fp << 1) + gear[static_cast<unsigned char>(s[at + i])];
        if ((fp & (i < avg ? 0x4444d9f003530000ULL : 0x4444d90003530000ULL)) == 0) return i;
    }
    return n;
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 31337u + 5};
    std::mt19937_64 gen(0);
    for (auto& x : gear) x = gen();
    FileChunker::Initialize();
    auto dir = std::filesystem::temp_directory_path() / ("chunker." + std::to_string(getpid()));
    std::filesystem::create_directories(dir);
    auto file = dir / "f";
    std::vector<std::size_t> sizes{0, 1, 2, 1000, 32767, 32768, 32769, 131071, 131072, 131073, 1048575, 1048576, 1048577, 2097151, 2097152, 2097153, 3145728, 3145729, 4194303, 4194304, 4194305};
    std::size_t k = 0;
    while (vh::elapsed() < a.secs) {
        auto n = k < sizes.size() ? sizes[k] : g.b() ? sizes[g.n(static_cast<int>(sizes.size()))] + g.n(3) : static_cast<std::size_t>(g.n(6000000));
        int kind = k < sizes.size() ? static_cast<int>((k + a.seed) % 4) : g.n(4);
        ++k;
        std::string s(n, '\0');
        auto seed = g.u();
        std::mt19937_64 r(seed);
        switch (kind) {
            case 0: break;                                                     // constant: only chunks of the largest size
            case 1: for (auto& c : s) c = static_cast<char>(r()); break;       // random
            case 2: for (std::size_t i = 0; i < n; ++i) s[i] = static_cast<char>((i / 70000) % 2 ? r() : 0xff); break;
            default: for (std::size_t i = 0; i < n; ++i) s[i] = static_cast<char>(i % (1 + seed % 997)); break;
        }
        vh::setcase("file of " + std::to_string(n) + " bytes, kind " + std::to_string(kind) + ", seed " + std::to_string(seed));
        { std::ofstream o(file, std::ios::binary); o << s; }
        FileChunker c{file};
        vh::check(c.IsOpen(), "file is not open");
        std::size_t at = 0;
        int m = 0;
        while (auto chunk = c.NextChunk()) {
            vh::check(not chunk->empty(), "an empty chunk");
            vh::check(at + chunk->size() <= n and s.compare(at, chunk->size(), *chunk) == 0, "chunk " + std::to_string(m) + " at offset " + std::to_string(at) + " of " + std::to_string(chunk->size()) + " bytes is not the content there");
            auto want = own_cut(s, at);
            vh::check(chunk->size() == want, "chunk at offset " + std::to_string(at) + " has " + std::to_string(chunk->size()) + " bytes, expected " + std::to_string(want));
            at += chunk->size();
            ++m;
        }
        vh::check(at == n, "the chunks have " + std::to_string(at) + " bytes together");
        vh::check(c.Finished(), "not finished after the last chunk");
        vh::check(not c.NextChunk(), "a chunk after the last one");
        vh::count(std::to_string(n) + "/" + std::to_string(kind) + "/" + std::to_string(seed), m > 1);
    }
    FileChunker none{dir / "missing"};
    vh::setcase("missing file");
    vh::check(not none.IsOpen() and not none.NextChunk() and not none.Finished(), "a missing file is chunked");
    std::filesystem::remove_all(dir);
    vh::stats();
    return 0;
}
