// Reference definitions of the classification scores.
#pragma once
#include "ldtm.h"
#include "scoring.h"
typedef long double LD;
// score = probability of class 0: a low score means "positive first". Pairs of a positive and a negative observation, weights multiplied, ties count 1/2 (pessimistic: 0)
inline LD refAucPairs(const std::vector<double> &y, const std::vector<double> &s, const std::vector<LD> &wpos, const std::vector<LD> &wneg, bool pess) {
  LD num = 0, P = 0, N = 0; for (size_t i = 0; i < y.size(); i++) { if (y[i] == 0) N += wneg[i]; else P += wpos[i]; }
  for (size_t i = 0; i < y.size(); i++) if (y[i] != 0) for (size_t j = 0; j < y.size(); j++) if (y[j] == 0) num += wpos[i] * wneg[j] * (s[i] < s[j] ? 1.0L : s[i] == s[j] ? (pess ? 0.0L : 0.5L) : 0.0L);
  return num / (P * N);
}
// area of the normalized ROC between two false positive rates, by the distinct scores
inline LD refAucPartial(const std::vector<double> &y, const std::vector<double> &s, const std::vector<LD> &wpos, const std::vector<LD> &wneg, bool pess, LD lo, LD up) {
  LD P = 0, N = 0; std::map<double, std::pair<LD, LD>> g; for (size_t i = 0; i < y.size(); i++) { auto &q = g[s[i]]; if (y[i] == 0) { N += wneg[i]; q.first += wneg[i]; } else { P += wpos[i]; q.second += wpos[i]; } }
  LD x = 0, t = 0, area = 0;
  for (auto &q : g) { LD dx = q.second.first / N, dt = q.second.second / P; LD a = std::max(x, lo), b = std::min(x + dx, up); if (b > a && dx > 0) { LD ta = pess ? t : t + (a - x) / dx * dt, tb = pess ? t : t + (b - x) / dx * dt; area += (b - a) * (ta + tb) / 2; } x += dx; t += dt; }
  return area / (up - lo);
}
// cost tables: first column = upper bounds of the probability of the observed class; column class+1 = cost
inline LD refCost(const std::vector<ref::M> &tables, const std::vector<double> &y, const std::function<double(int, int)> &prob, const std::vector<LD> &w, std::vector<LD> *sums = nullptr, std::vector<LD> *counts = nullptr) {
  LD avg = 0; for (size_t q = 0; q < tables.size(); q++) { LD s = 0, c = 0; for (size_t i = 0; i < y.size(); i++) { int a = (int)y[i]; double p = prob(i, a); int row = 0; while (row < tables[q].r && (double)tables[q](row, 0) < p) row++; s += w[i] * tables[q](row, a + 1); c += w[i]; } avg += s / c; if (sums) (*sums)[q] += s; if (counts) (*counts)[q] += c; }
  return avg / tables.size();
}
inline ref::M rndCostTable(Rng &r, int choices, bool full = true) { int rows = r.i(2, 4); ref::M t(rows, choices + 1); std::set<double> th; while ((int)th.size() < rows - 1) th.insert(std::round(r.u(0.05, 0.95) * 100) / 100); if (full) th.insert(1.0); else { while ((int)th.size() < rows) th.insert(r.u(0.05, 0.9)); } int i = 0; for (auto x : th) t(i++, 0) = x; for (int i = 0; i < rows; i++) for (int j = 1; j <= choices; j++) t(i, j) = r.b(0.4) ? 0 : r.b(0.3) ? 1 : r.u(0, 1); return t; }
