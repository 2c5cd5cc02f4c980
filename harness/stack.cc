// Random histories of stack operations against a model. stack SEED OPS [empty]
// With "empty" stacks are also popped when they are empty (only where assertions are off).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "stacks.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

static bool counting = false;
#if defined(__SANITIZE_ADDRESS__)
static std::set<const volatile void*>* mine = nullptr;
static bool busy = false;
static void on_malloc(const volatile void* p, size_t) { if (counting && !busy) { busy = true; mine->insert(p); busy = false; } }
static void on_free(const volatile void* p) { if (!busy && mine && p) { busy = true; mine->erase(p); busy = false; } }
#endif
static std::mt19937_64 rng;
static long op_no = 0;
static unsigned long rnd(unsigned long n) { return rng() % n; }
[[noreturn]] static void bad(const char* what, long a = 0, long b = 0)
{
    counting = false;
    printf("MISMATCH op %ld: %s (%ld, %ld)\n", op_no, what, a, b);
    exit(1);
}
typedef std::vector<unsigned char> Item;
struct S { stack_ptr s; long size; std::vector<Item> m; size_t deepest; };

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    rng.seed(strtoul(argv[1], 0, 10) * 6151 + 5);
    const long ops = atol(argv[2]);
    const bool empty = argc > 3;
#if defined(__SANITIZE_ADDRESS__)
    mine = new std::set<const volatile void*>;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    const long sizes[] = { 1, 2, 4, 8, 12, 16, 24, 48, 120, 1000 };
    std::vector<S> ss;
    auto make = [&]() { S s; s.size = sizes[rnd(10)]; counting = true; s.s = create_stack((size_t)s.size); counting = false; s.deepest = 0; return s; };
    const int n = 1 + (int)rnd(5);
    for (int i = 0; i < n; i++) ss.push_back(make());
    long pushes = 0, pops = 0, tops = 0, ats = 0, clears = 0, empties = 0, grown = 0, recreated = 0;
    size_t deepest = 0;
    int up = 1;
    auto check = [&](S& s)
    {
        // emptiness and depth as the stacks' users see them: the index of the top item
        if (s.s->instance->index + 1 != (long)s.m.size()) bad("number of items", s.s->instance->index + 1, (long)s.m.size());
    };
    for (op_no = 0; op_no < ops; op_no++)
    {
        if (rnd(120) == 0) up = (int)rnd(3);
        S& s = ss[rnd(ss.size())];
        const unsigned long w = rnd(100);
        const unsigned long pu = up == 1 ? 60 : up == 2 ? 35 : 15;
        if (w < pu)
        {
            Item it((size_t)s.size);
            for (auto& c : it) c = (unsigned char)rng();
            void* v = malloc((size_t)s.size);
            memcpy(v, it.data(), it.size());
            const long cap = s.s->instance->stack_size;
            counting = true;
            s.s->push(s.s->instance, v);
            counting = false;
            memset(v, 0xEE, (size_t)s.size); free(v);
            if (s.s->instance->stack_size != cap) grown++;
            s.m.push_back(it);
            pushes++;
            if (s.m.size() > s.deepest) s.deepest = s.m.size();
            if (s.deepest > deepest) deepest = s.deepest;
        }
        else if (w < 75)
        {
            if (s.m.empty())
            {
                if (empty)
                {
                    if (s.s->pop(s.s->instance) != NULL) bad("popping an empty stack gave an item");
                    empties++;
                }
            }
            else
            {
                void* v = s.s->pop(s.s->instance);
                if (!v) bad("pop gave nothing", (long)s.m.size());
                if (memcmp(v, s.m.back().data(), (size_t)s.size)) bad("pop gave another item", (long)s.m.size());
                s.m.pop_back();
                pops++;
            }
        }
        else if (w < 88)
        {
            if (!s.m.empty())
            {
                void* v = s.s->top(s.s->instance);
                if (!v || memcmp(v, s.m.back().data(), (size_t)s.size)) bad("top", (long)s.m.size());
                if (rnd(4) == 0) for (long i = 0; i < s.size; i++) ((unsigned char*)v)[i] = s.m.back()[(size_t)i] = (unsigned char)rng();
                tops++;
            }
        }
        else if (w < 98)
        {
            if (!s.m.empty())
            {
                const long k = (long)rnd(s.m.size());
                void* v = s.s->item_at(s.s->instance, k);
                if (!v || memcmp(v, s.m[(size_t)k].data(), (size_t)s.size)) bad("item_at", k, (long)s.m.size());
                ats++;
            }
        }
        else if (rnd(8) == 0)
        {
            if (rnd(2)) { s.s->clear(s.s->instance); s.m.clear(); clears++; }
            else { free_stack(s.s); s = make(); recreated++; }
        }
        check(s);
        if (op_no % 997 == 0)
            for (auto& t : ss)
                for (size_t k = 0; k < t.m.size(); k++)
                    if (memcmp(t.s->item_at(t.s->instance, (long)k), t.m[k].data(), (size_t)t.size)) bad("an item changed", (long)k, (long)t.m.size());
    }
    for (auto& t : ss)
    {
        while (!t.m.empty())
        {
            void* v = t.s->pop(t.s->instance);
            if (!v || memcmp(v, t.m.back().data(), (size_t)t.size)) bad("pop at the end", (long)t.m.size());
            t.m.pop_back();
            pops++;
        }
        check(t);
        free_stack(t.s);
    }
#if defined(__SANITIZE_ADDRESS__)
    if (!mine->empty()) bad("memory was leaked", (long)mine->size());
#endif
    printf("ok pushes=%ld pops=%ld tops=%ld items=%ld clears=%ld empty_pops=%ld growths=%ld recreated=%ld deepest=%ld\n",
        pushes, pops, tops, ats, clears, empties, grown, recreated, (long)deepest);
    return 0;
}
