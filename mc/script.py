"""Controlled randomness: every random draw of the simulators becomes an explored choice."""
import math, itertools, ctypes, os
import numpy as np
from . import env


class ScriptRNG:
    """Stand-in for numpy.random.Generator (World.rng) and for the `random` module.
    Draws are resolved by a Chooser; prob accumulates the probability of the execution."""

    def __init__(self, chooser=None, grid=4):
        self.ch = chooser
        self.prob = 1.0
        self.live = chooser is not None
        self.grid = grid
        self.calls = 0

    def _pick(self, n, tag, p=None):
        if n <= 0:
            raise ValueError("empty choice")
        idx = [i for i in range(n) if p is None or p[i] > 0]
        if len(idx) == 0:
            raise ValueError("no option has positive probability")
        i = idx[0]
        if self.live and len(idx) > 1:
            i = idx[self.ch.choose(len(idx), tag)]
        if self.live:
            self.prob *= (1.0 / n if p is None else float(p[i]))
        return i

    # numpy Generator interface -------------------------------------------------
    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.calls += 1
        if isinstance(a, (int, np.integer)):
            a = list(range(int(a)))
        a = list(a)
        if p is not None:
            p = [float(x) for x in p]
            if len(p) != len(a):
                raise ValueError("'a' and 'p' must have same size")
            if abs(sum(p) - 1) > 1e-8 or min(p) < 0:
                raise ValueError("probabilities do not sum to 1 or are negative")
        if size is None:
            return a[self._pick(len(a), "choice", p)]
        n = int(np.prod(size))
        out, pool = [], list(range(len(a)))
        for _ in range(n):
            k = self._pick(len(pool), "choice", [p[i] for i in pool] if p is not None else None)
            out.append(a[pool[k]])
            if not replace:
                pool.pop(k)
        return out

    def permutation(self, x):
        y = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        self.shuffle(y)
        return y

    def shuffle(self, x):
        self.calls += 1
        # enumerate distinct arrangements position by position; equal elements are merged
        items = list(x)
        out = []
        while items:
            keys = []
            for it in items:
                if not any(it is k or (type(it) in (int, str) and it == k) for k in keys):
                    keys.append(it)
            cnt = [sum(1 for it in items if it is k or (type(it) in (int, str) and it == k)) for k in keys]
            tot = len(items)
            i = 0
            if self.live and len(keys) > 1:
                i = self.ch.choose(len(keys), "shuffle")
            if self.live:
                self.prob *= cnt[i] / tot
            k = keys[i]
            for j, it in enumerate(items):
                if it is k or (type(it) in (int, str) and it == k):
                    items.pop(j)
                    break
            out.append(k)
        for j, it in enumerate(out):
            x[j] = it

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls += 1
        if size is not None:
            return np.array([self.uniform(low, high) for _ in range(int(np.prod(size)))]).reshape(size)
        if high == low:
            return low
        k = self._pick(self.grid, "uniform")
        return low + (high - low) * (k + 0.5) / self.grid

    def random(self, size=None):
        if not self.live:
            return 0.5 if size is None else np.full(size, 0.5)
        if size is not None:
            return np.full(size, 0.5)
        return self.uniform(0, 1)

    def integers(self, low, high=None, size=None, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        if size is None:
            return int(low) + self._pick(n, "int")
        return np.array([int(low) + self._pick(n, "int") for _ in range(int(np.prod(size)))]).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            return np.full(size, loc)
        return loc + scale * (-1, 0, 1)[self._pick(3, "normal")]

    # random module interface ----------------------------------------------------
    def randint(self, a, b=None):
        if b is None:
            return self._pick(a, "randint")
        return a + self._pick(b - a + 1, "randint")

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return a + self._pick(b - a, "randrange")

    def sample(self, pop, k):
        return self.choice(list(pop), size=k, replace=False)

    def choices(self, pop, weights=None, k=1):
        p = None
        if weights is not None:
            s = float(sum(weights))
            p = [w / s for w in weights]
        return [pop[self._pick(len(pop), "choices", p)] for _ in range(k)]

    def seed(self, *a):
        pass

    def getrandbits(self, n):
        return 0


SHIM = r'''
#pragma once
#include <bits/stdc++.h>
#include <random>
#include <algorithm>
// exploration shim: every draw asks the explorer
namespace uxmc {
struct St { std::vector<int> script; std::vector<long long> live; std::vector<int> choice, arity; int grid = 2; bool on = false; };
inline St &st(){ static St s; return s; }
inline int draw(int n, long long key = -1){
  St &s = st();
  if (n <= 1) return 0;
  // draws of entities outside the explored set take the default answer without branching
  if (key >= 0 && !s.live.empty() && std::find(s.live.begin(), s.live.end(), key) == s.live.end()) return 0;
  size_t k = s.choice.size();
  int c = k < s.script.size() ? s.script[k] : 0;
  if (c >= n) c = n - 1;
  s.choice.push_back(c); s.arity.push_back(n);
  return c;
}
struct eng {
  typedef unsigned int result_type;
  long long key = -1;
  eng() {}
  explicit eng(unsigned int) {}
  explicit eng(std::seed_seq &q) {
    std::vector<unsigned int> v(q.size()); q.param(v.begin());
    if (v.size() >= 2) key = (long long)v[v.size() - 2] * 1000000LL + v[v.size() - 1]; }
  static constexpr result_type min() { return 0u; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { int g = st().grid; return (result_type)((draw(g, key) + 0.5) / g * 4294967296.0); }
  template<class T> void seed(T &&) {}
  void seed() {}
  void discard(unsigned long long) {}
};
template<class I = int> struct uid {
  typedef I result_type; I a, b;
  explicit uid(I a_ = 0, I b_ = std::numeric_limits<I>::max()) : a(a_), b(b_) {}
  template<class G> I operator()(G &e) { return a + (I)draw((int)(b - a + 1), e.key); }
};
template<class R = double> struct urd {
  typedef R result_type; R a, b;
  explicit urd(R a_ = 0, R b_ = 1) : a(a_), b(b_) {}
  template<class G> R operator()(G &e) { if (!(b > a)) return a; int g = st().grid; return a + (b - a) * (draw(g, e.key) + 0.5) / g; }
};
}
extern "C" {
__attribute__((visibility("default"))) void uxmc_begin(const int *p, int n, int grid, const long long *lv, int nl){
  auto &s = uxmc::st(); s.script.assign(p, p + n); s.choice.clear(); s.arity.clear(); s.live.assign(lv, lv + nl); s.grid = grid; s.on = true; }
__attribute__((visibility("default"))) int uxmc_len(){ return (int)uxmc::st().choice.size(); }
__attribute__((visibility("default"))) void uxmc_get(int *c, int *a){
  auto &s = uxmc::st(); for (size_t i = 0; i < s.choice.size(); i++){ c[i] = s.choice[i]; a[i] = s.arity[i]; } }
}
namespace std { typedef uxmc::eng uxmc_mt; template<class I = int> using uxmc_uid = uxmc::uid<I>; template<class R = double> using uxmc_urd = uxmc::urd<R>; }
#define mt19937 uxmc_mt
#define mt19937_64 uxmc_mt
#define uniform_int_distribution uxmc_uid
#define uniform_real_distribution uxmc_urd
'''


def build_scripted_ext():
    os.makedirs(env.BUILD, exist_ok=True)
    p = os.path.join(env.BUILD, "shim.h")
    if not os.path.exists(p) or open(p).read() != SHIM:
        open(p + ".tmp", "w").write(SHIM)
        os.replace(p + ".tmp", p)
    return env.build_ext(extra=(p,), tag="scripted")


_lib = None


def load_scripted():
    """Load uxsim with the C++ engine whose random engine is the explorer."""
    global _lib
    so = build_scripted_ext()
    U = env.load(cpp=True, so=so)
    _lib = ctypes.CDLL(so)
    return U


class CppScript:
    def __init__(self, chooser, grid=2, live=()):
        # live: entities whose draws branch, as (kind, id): kind 1 = node, 2 = link
        self.ch = chooser
        self.grid = grid
        pre = chooser.prefix
        arr = (ctypes.c_int * max(1, len(pre)))(*pre)
        lv = (ctypes.c_longlong * max(1, len(live)))(*[a * 1000000 + b for a, b in live])
        _lib.uxmc_begin(arr, len(pre), grid, lv, len(live))
        self.prob = 1.0

    def finish(self):
        n = _lib.uxmc_len()
        c = (ctypes.c_int * max(1, n))()
        a = (ctypes.c_int * max(1, n))()
        _lib.uxmc_get(c, a)
        self.ch.trace = [(c[i], a[i], "cpp") for i in range(n)]
        for i in range(n):
            self.prob /= a[i]
