// Supplement to the controlled schedules: the same computations on the same
// shared constant objects in free-running threads under the thread sanitizer
// (a cooperative scheduler orders all accesses and would hide data races).
#include "common.hpp"
#include <thread>

FAMILY(free_running) {
  static auto* S = new std::vector<Scenario>(scenarios());
  cx.bound("all pairs (with repetition) of computations of all scenarios in two free-running threads under the thread sanitizer (race detection only, not a schedule enumeration)");
  for(auto const& s : *S) {
    int n = int(s.make().size());
    for(int i = 0; i < n && !cx.done(); ++i)
      for(int j = i; j < n; ++j)
        cx.test([&] { return mc::str(s.name, ": ", s.make()[i].name, " with ", s.make()[j].name); },
                [&] {
                  std::string ex[2] = {s.make()[i].run(), s.make()[j].run()};
                  for(int rep = 0; rep < 3; ++rep) {
                    auto c = s.make();
                    std::string r[2];
                    auto body = [&](int t) {
                      try {
                        r[t] = c[t == 0 ? i : j].run();
                      } catch(std::exception const& e) {
                        r[t] = std::string("exception ") + e.what();
                      } catch(mc::Failure const& f) { r[t] = f.msg; }
                    };
                    std::thread a(body, 0), b(body, 1);
                    a.join();
                    b.join();
                    for(int t = 0; t < 2; ++t)
                      MC_CHECK(r[t] == ex[t], c[t == 0 ? i : j].name, ": ", r[t], " instead of ", ex[t]);
                    cx.trans(2);
                  }
                  cx.state(mc::hcomb(mc::hstr(s.name), i * 100 + j));
                  cx.validated();
                });
  }
}
