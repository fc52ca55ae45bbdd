#include "common.hpp"

static std::vector<Scenario> const& all() {
  static auto* s = new std::vector<Scenario>(scenarios());
  return *s;
}
static std::vector<std::string> alone(Scenario const& s) {
  std::vector<std::string> r;
  std::size_t n = s.make().size();
  for(std::size_t i = 0; i < n; ++i)
    r.push_back(s.make()[i].run());
  return r;
}
static void explore(mc::Ctx& cx, Scenario const& s, std::vector<int> const& sel, std::vector<std::string> const& expected, int preempt) {
  uint64_t steps = 0, n = 0;
  std::set<std::string> outcomes;
  struct World {
    std::vector<Comp> comps;
    ~World() {}
  };
  std::shared_ptr<World> w, prev;
  auto post = [&] {
    if(!w) return;
    for(int k : sel) {
      std::string r = w->comps[k].run();
      MC_CHECK(r == expected[k], s.name, ": ", w->comps[k].name, " repeated after the concurrent run gives ", r, " instead of ", expected[k]);
    }
  };
  n = fiber::explore(
      [&](fiber::Sched& sch) {
        post();
        w = std::make_shared<World>();
        w->comps = s.make();
        for(int k : sel) {
          auto ww = w;
          sch.add([&, ww, k] {
            std::string r = ww->comps[k].run();
            MC_CHECK(r == expected[k], s.name, ": ", ww->comps[k].name, " gives ", r, " instead of ", expected[k]);
          });
        }
      },
      preempt, steps);
  post();
  cx.trans(steps);
  cx.validated(n);
  cx.state(mc::hcomb(mc::hstr(s.name), n));
}

FAMILY(pairs) {
  int pre = cx.pick(3, 5);
  cx.bound(mc::str("all pairs (with repetition) of read-only computations on the shared objects of ", all().size(), " scenarios, all schedules with up to ", pre, " preemptions, later use included"));
  for(auto const& s : all()) {
    auto ex = alone(s);
    int n = int(ex.size());
    for(int i = 0; i < n && !cx.done(); ++i)
      for(int j = i; j < n; ++j)
        cx.test([&] { return mc::str(s.name, ": ", s.make()[i].name, " with ", s.make()[j].name); }, [&] { explore(cx, s, {i, j}, ex, pre); });
  }
}
FAMILY(triples) {
  int pre = cx.pick(2, 3);
  cx.bound(mc::str("all triples (with repetition), all schedules with up to ", pre, " preemptions"));
  for(auto const& s : all()) {
    auto ex = alone(s);
    int n = int(ex.size());
    for(int i = 0; i < n && !cx.done(); ++i)
      for(int j = i; j < n; ++j)
        for(int k = j; k < n; ++k)
          cx.test([&] { return mc::str(s.name, ": ", s.make()[i].name, " with ", s.make()[j].name, " with ", s.make()[k].name); }, [&] { explore(cx, s, {i, j, k}, ex, pre); });
  }
}
FAMILY(abandoned) {
  cx.bound("every computation abandoned by an exception from each of its callbacks, then every computation on the same objects; twice in a row");
  for(auto const& s : all()) {
    auto ex = alone(s);
    int n = int(ex.size());
    for(int i = 0; i < n && !cx.done(); ++i)
      for(int j = 0; j < n; ++j)
        cx.test([&] { return mc::str(s.name, ": abandon ", s.make()[i].name, " then ", s.make()[j].name); },
                [&] {
                  for(long at = 0; at < 200; ++at) {
                    auto c = s.make();
                    Points::abandon_at() = at;
                    bool thrown = false;
                    try {
                      c[i].run();
                    } catch(Abandon const&) { thrown = true; }
                    Points::abandon_at() = -1;
                    cx.trans();
                    for(int k : {j, i, j}) {
                      std::string r = c[k].run();
                      MC_CHECK(r == ex[k], c[k].name, " after ", c[i].name, " was abandoned at callback ", at, ": ", r, " instead of ", ex[k]);
                    }
                    cx.validated();
                    if(!thrown) break;
                  }
                });
  }
}
