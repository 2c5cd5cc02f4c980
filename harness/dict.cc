// Random histories of dictionary operations against a model. dict SEED OPS MODE
// Prints "ok key=value ..." or "MISMATCH what". Built with AddressSanitizer; live allocations are counted.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "dictionary.h"
#include "hash.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

static long live = 0;
static bool counting = false;
#if defined(__SANITIZE_ADDRESS__)
static std::set<const volatile void*>* mine = nullptr;
static bool busy = false;
static void on_malloc(const volatile void* p, size_t) { if (counting && !busy) { busy = true; mine->insert(p); busy = false; } }
static void on_free(const volatile void* p) { if (!busy && mine && p) { busy = true; mine->erase(p); busy = false; } }
#endif

struct Val { std::vector<unsigned char> bytes; void* at; };
typedef std::map<std::string, std::vector<Val>> Model;   // newest last

static std::mt19937_64 rng;
static long op_no = 0;
static unsigned long rnd(unsigned long n) { return rng() % n; }
[[noreturn]] static void bad(const char* what, const std::string& key)
{
    counting = false;
    printf("MISMATCH op %ld: %s (key '%s')\n", op_no, what, key.c_str());
    exit(1);
}

static std::string fold(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }

static std::map<const element*, int> seen;
static int visit(element_ptr e, FILE*) { seen[e]++; return 0; }

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    const unsigned long seed = strtoul(argv[1], 0, 10);
    const long ops = atol(argv[2]);
    const std::string mode = argv[3];
    rng.seed(seed * 7919 + 13);
    const bool str = mode[0] == 's';
#if defined(__SANITIZE_ADDRESS__)
    mine = new std::set<const volatile void*>;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    const int sizes[] = { 1, 2, 4, 8, 12, 24, 40, 200, 1000 };
    const int ndict = 1 + (int)rnd(3);
    struct D { dictionary_ptr d; Model m; int size; long grown; bool dup; };
    std::vector<D> ds;
    FILE* null = fopen("/dev/null", "w");

    // keys: random names, equal prefixes, letter case variants, names that collide in the table, very long names
    std::vector<std::string> pool;
    const long nk = 1 + (long)rnd(mode[1] == 'b' ? 6000 : mode[1] == 's' ? 12 : 400);
    const char* alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@.";
    while ((long)pool.size() < nk)
    {
        std::string s;
        switch (rnd(8))
        {
        case 0: s = "k" + std::to_string(rnd(20000)); break;
        case 1: s = std::string(1 + rnd(40), 'a'); break;
        case 2: if (!pool.empty()) { s = pool[rnd(pool.size())]; for (auto& c : s) if (rnd(2)) c = (char)(rnd(2) ? toupper(c) : tolower(c)); } break;
        case 3: if (!pool.empty()) { s = pool[rnd(pool.size())]; if (s.size() > 1) s.resize(1 + rnd(s.size())); s += alpha[rnd(65)]; } break;
        case 4:   // same bucket of a table of the initial size
        {
            const unsigned long want = rnd(3) * 341;
            do s = "c" + std::to_string(rng() % 100000000); while (hash_function(s.c_str()) % 1024 != want);
            break;
        }
        case 5: s = std::string(200 + rnd(3000), alpha[rnd(65)]) + alpha[rnd(65)]; break;
        case 6: for (int i = 0; i < 6; i++) s += alpha[rnd(65)]; break;
        default: s = rnd(3) ? std::to_string(rnd(300)) : std::string(1, alpha[rnd(65)]); break;
        }
        if (rnd(200) == 0) s = "";
        pool.push_back(s);
    }
    auto ptr_of = [&](const std::string& s) -> void*   // pointer keys: small strides, equal low parts, arbitrary
    {
        const unsigned long h = std::hash<std::string>()(s);
        switch (h % 4)
        {
        case 0: return (void*)(h % 4096 * 16);
        case 1: return (void*)((h % 512) << 32 | 0x1000);
        case 2: return (void*)(h | 1UL << 63);
        default: return (void*)h;
        }
    };
    auto keyid = [&](const std::string& s) { if (str) return fold(s); return std::to_string((unsigned long)ptr_of(s)); };

    long inserts = 0, finds = 0, absent = 0, deletes = 0, uncovered = 0, dumps = 0, grows = 0, writes = 0, maxn = 0, collisions = 0;
    counting = true;
    for (int i = 0; i < ndict; i++)
    {
        const int sz = sizes[rnd(9)];
        D d; d.d = dict_create(sz, str ? 0 : -1); d.size = sz; d.grown = 0; d.dup = rnd(2);
        counting = false; ds.push_back(d); counting = true;
    }
    counting = false;
    // the phases favour one operation each, so that the dictionary grows, is emptied and grows again
    int phase = 0;
    for (op_no = 0; op_no < ops; op_no++)
    {
        if (rnd(300) == 0) phase = (int)rnd(4);
        D& d = ds[rnd(ds.size())];
        const std::string& k = pool[rnd(pool.size())];
        const std::string id = keyid(k);
        auto it = d.m.find(id);
        const bool has = it != d.m.end() && !it->second.empty();
        unsigned long what = rnd(100);
        const unsigned long ins = phase == 0 ? 70 : phase == 1 ? 20 : phase == 2 ? 40 : 5, del = phase == 1 ? 60 : phase == 2 ? 20 : 8;
        // a private copy of the key: the dictionary must not keep the caller's string
        char* kb = (char*)malloc(k.size() + 1);
        memcpy(kb, k.c_str(), k.size() + 1);
        if (str && rnd(3) == 0) for (char* c = kb; *c; c++) *c = (char)(rnd(2) ? toupper(*c) : tolower(*c));
        void* key = str ? (void*)kb : ptr_of(k);
        if (what < ins && (d.dup || !has))
        {
            unsigned char* v = (unsigned char*)malloc((size_t)d.size);
            for (int i = 0; i < d.size; i++) v[i] = (unsigned char)rng();
            Val val; val.bytes.assign(v, v + d.size);
            dictionary_ptr before = d.d;
            counting = true;
            void* r = dict_insert(&d.d, key, v);
            counting = false;
            if (before != d.d) { grows++; d.grown++; }
            memset(v, 0xEE, (size_t)d.size); free(v);
            if (!r) bad("insert returned nothing", k);
            if (memcmp(r, val.bytes.data(), (size_t)d.size)) bad("insert returned another value", k);
            val.at = r;
            d.m[id].push_back(val);
            inserts++;
        }
        else if (what < ins + del)
        {
            dict_delete(d.d, key);
            if (has)
            {
                it->second.pop_back();
                if (it->second.empty()) d.m.erase(it); else uncovered++;
            }
            void* r = dict_search(d.d, key);
            auto now = d.m.find(id);
            if (now == d.m.end() ? r != NULL : r != now->second.back().at) bad("search after delete", k);
            deletes++;
        }
        else if (what < 97)
        {
            void* r = dict_search(d.d, key);
            if (!has)
            {
                if (r) bad("a key that is not stored was found", k);
                absent++;
            }
            else
            {
                Val& v = it->second.back();
                if (!r) bad("a stored key was not found", k);
                if (memcmp(r, v.bytes.data(), (size_t)d.size)) bad("another value than the last stored one", k);
                if (r != v.at) bad("the value moved", k);
                finds++;
                if (rnd(4) == 0)
                {
                    for (int i = 0; i < d.size; i++) ((unsigned char*)r)[i] = v.bytes[(size_t)i] = (unsigned char)rng();
                    writes++;
                }
            }
        }
        else if (rnd(20) == 0 && !d.m.empty())
        {
            // every pointer ever returned for an entry that is still there
            for (auto& e : d.m) for (auto& v : e.second)
                if (memcmp(v.at, v.bytes.data(), (size_t)d.size)) bad("the value behind a pointer changed", e.first);
            seen.clear();
            dump_dictionary(d.d, visit, null);
            long n = 0;
            std::set<void*> at;
            for (auto& e : d.m) for (auto& v : e.second) { n++; at.insert(v.at); }
            if ((long)seen.size() != n) bad("number of entries visited", std::to_string(seen.size()) + " for " + std::to_string(n));
            for (auto& s : seen)
            {
                if (s.second != 1) bad("an entry was visited more than once", "");
                if (!at.count(s.first->value)) bad("an entry was visited that is not stored", "");
                const std::string id2 = str ? fold((char*)s.first->key) : std::to_string((unsigned long)s.first->key);
                auto m = d.m.find(id2);
                if (m == d.m.end() || std::none_of(m->second.begin(), m->second.end(), [&](Val& v) { return v.at == s.first->value; }))
                    bad("an entry was visited under another key", id2);
            }
            dumps++;
        }
        if (str) memset(kb, 'Z', k.size());
        free(kb);
        long n = (long)d.m.size();
        if (n > maxn) maxn = n;
    }
    for (auto& d : ds)
    {
        for (auto& e : d.m) for (auto& v : e.second)
            if (memcmp(v.at, v.bytes.data(), (size_t)d.size)) bad("the value behind a pointer changed (end)", e.first);
        collisions += d.d->collisions;
        dict_destroy(d.d);
    }
#if defined(__SANITIZE_ADDRESS__)
    if (!mine->empty()) bad("memory was leaked", std::to_string(mine->size()) + " blocks");
#endif
    printf("ok inserts=%ld finds=%ld absent=%ld deletes=%ld uncovered=%ld visits=%ld growths=%ld writes=%ld maxkeys=%ld collisions=%ld\n",
        inserts, finds, absent, deletes, uncovered, dumps, grows, writes, maxn, collisions);
    return 0;
}
