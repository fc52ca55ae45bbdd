#include "fact.hpp"
// --- algebraic relations between factories, all pairs of sites --------------------------------
template <typename E> static E comm(E const& a, E const& b) { return a * b - b * a; }
template <typename E> static E acomm(E const& a, E const& b) { return a * b + b * a; }

template <int M> static void spin_rel(mc::Ctx& cx, int i, int j) {
  double d = i == j;
  auto sp = st::S_p<M>(i), sm = st::S_m<M>(j), szj = st::S_z<M>(j), spj = st::S_p<M>(j), szi = st::S_z<M>(i);
  MC_CHECK(comm(sp, sm) == 2.0 * d * szi, "[S+,S-] M=", M, " ", i, " ", j);
  MC_CHECK(comm(szi, spj) == d * sp, "[Sz,S+] M=", M);
  MC_CHECK(comm(szi, sm) == -d * sm, "[Sz,S-] M=", M);
  auto x = st::S_x<M>(i), y = st::S_y<M>(j), z = st::make_complex(szi);
  auto yi = st::S_y<M>(i), xj = st::S_x<M>(j), zj = st::make_complex(szj);
  CD I(0, 1);
  MC_CHECK(comm(x, y) == I * d * z, "[Sx,Sy] M=", M);
  MC_CHECK(comm(yi, zj) == I * d * x, "[Sy,Sz] M=", M);
  MC_CHECK(comm(z, xj) == I * d * yi, "[Sz,Sx] M=", M);
  MC_CHECK(conj(sp) == st::S_m<M>(i) && conj(szi) == szi && conj(x) == x && conj(yi) == yi, "hermiticity M=", M);
  cx.validated(7);
  cx.trans(7);
  if(i == j) { // Casimir operator and standard matrices
    auto cas = x * x + yi * yi + z * z;
    hilbert_space<int> hs(st::make_space_spin((M - 1) / 2.0, i));
    double S = (M - 1) / 2.0;
    auto lc = make_loperator(cas, hs), lx = make_loperator(x, hs), ly = make_loperator(yi, hs), lz = make_loperator(z, hs);
    for(int k = 0; k < M; ++k) {
      std::vector<CD> v(hs.vec_size());
      v[k] = 1;
      auto w = lc(v), wx = lx(v), wy = ly(v), wz = lz(v);
      double mk = k - S; // documented: index 0 is m = -S
      for(int l = 0; l < M; ++l) {
        MC_CHECK(mc::close(w[l], CD(l == k ? S * (S + 1) : 0)), "Casimir M=", M, " <", l, "|C|", k, "> = ", w[l]);
        double up = l == k + 1 ? std::sqrt(S * (S + 1) - mk * (mk + 1)) : 0, dn = l == k - 1 ? std::sqrt(S * (S + 1) - mk * (mk - 1)) : 0;
        MC_CHECK(mc::close(wx[l], CD((up + dn) / 2)), "Sx matrix M=", M);
        MC_CHECK(mc::close(wy[l], CD(0, -(up - dn) / 2)), "Sy matrix M=", M);
        MC_CHECK(mc::close(wz[l], CD(l == k ? mk : 0)), "Sz matrix M=", M);
        cx.validated();
      }
      cx.state(M * 1000 + k);
    }
  }
}
FAMILY(relations) {
  cx.bound("commutation relations of all factories for all pairs of sites 0..3 and spins 1/2..4; Casimir and standard matrices");
  for(int i = 0; i < 4; ++i)
    for(int j = 0; j < 4; ++j)
      cx.test([&] { return mc::str("sites ", i, " ", j); },
              [&] {
                double d = i == j;
                using namespace st;
                MC_CHECK(acomm(c(i), c_dag(j)) == c_dag(0) * 0.0 + d, "{c,c+}");
                MC_CHECK(acomm(c(i), c(j)).size() == 0 && acomm(c_dag(i), c_dag(j)).size() == 0, "{c,c}");
                MC_CHECK(comm(a(i), a_dag(j)) == a(0) * 0.0 + d, "[a,a+]");
                MC_CHECK(comm(a(i), a(j)).size() == 0 && comm(a_dag(i), a_dag(j)).size() == 0, "[a,a]");
                MC_CHECK(comm(n(i), c_dag(j)) == d * c_dag(i) && comm(n(i), c(j)) == -d * c(i), "[n,c]");
                MC_CHECK(n(i) * n(i) == n(i) && comm(n(i), n(j)).size() == 0, "n");
                MC_CHECK(conj(c(i)) == c_dag(i) && conj(a_dag(i)) == a(i) && conj(n(i)) == n(i), "conj");
                MC_CHECK(comm(a_dag(i) * a(i), a(j)) == -d * a(i), "[a+a,a]");
                cx.validated(8);
                // different algebras commute
                MC_CHECK(comm(c(i), a(j)).size() == 0 && comm(c_dag(i), S_p(j)).size() == 0 && comm(a(i), S_m<3>(j)).size() == 0 && comm(S_p<2>(i), S_m<3>(j)).size() == 0, "mixed commutators");
                MC_CHECK(S_p<2>(i) == S_p(i) && S_m<2>(i) == S_m(i) && S_z<2>(i) == S_z(i) && S_x<2>(i) == S_x(i) && S_y<2>(i) == S_y(i), "spin 1/2 forms");
                spin_rel<2>(cx, i, j);
                spin_rel<3>(cx, i, j);
                spin_rel<4>(cx, i, j);
                spin_rel<5>(cx, i, j);
                spin_rel<6>(cx, i, j);
                spin_rel<7>(cx, i, j);
                spin_rel<8>(cx, i, j);
                spin_rel<9>(cx, i, j);
              });
}
FAMILY(relations_large_spins) {
  cx.bound("the same for multiplicities 10..20, 31..33, 63..65, 100, 127..130, 150, 199, 200, 255..258, on sites 0 and 1");
  for(int i = 0; i < 2; ++i)
    for(int j = 0; j < 2; ++j) {
#define REL(M) cx.test([&] { return mc::str("multiplicity ", M, ", sites ", i, " ", j); }, [&] { spin_rel<M>(cx, i, j); });
      REL(10) REL(11) REL(12) REL(13) REL(14) REL(15) REL(16) REL(17) REL(18) REL(19) REL(20) REL(31) REL(32) REL(33) REL(63) REL(64) REL(65) REL(100) REL(127) REL(128) REL(129) REL(130) REL(150) REL(199) REL(200) REL(255) REL(256) REL(257) REL(258)
#undef REL
    }
}
