// R02: DORIS RINEX data blocks.
#include "mc.hpp"
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
#include <cerrno>
#include <memory>
#include <unistd.h>
using namespace rnx;
namespace {
using DT = dso::datetime<dso::nanoseconds>;
DT dt(const Date &d) { return DT(dso::year(d.y), dso::month(d.m), dso::day_of_month(d.d), dso::nanoseconds((long)(d.H * 3600 + d.M * 60) * 1000000000L + std::lround(d.S * 1e9))); }
const std::vector<std::string> ALL{"L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"};
Header head(int nobs, int scale) {
  Header H; H.codes.assign(ALL.begin(), ALL.begin() + nobs);
  if (scale == 1) H.scales.push_back({10, {}, true, 0});
  if (scale == 2) { H.scales.push_back({1000, {H.codes.back()}, false, 0}); if (nobs > 2) H.scales.push_back({-4, {H.codes[1]}, false, 0}); }
  return H;
}
Block block(int i, int nb, int nobs) {
  Block b; static const Date T[] = {{2020, 1, 1, 1, 41, 53.279947800}, {2020, 1, 1, 1, 42, 3.279947801}, {2020, 12, 31, 23, 59, 59.999999999}};
  b.t = T[i % 3]; b.has_off = true; b.off = i % 2 ? 0.000000123 : -4.432841287; b.flag = 0; b.cflag = i % 2; b.has_cflag = true;
  for (int k = 0; k < nb; k++) { Beacon q; char id[8]; snprintf(id, 8, "D%02d", (k * 7 + i) % 100); q.in = id; for (int o = 0; o < nobs; o++) q.v.push_back({Val::NUM, ((o + k + i) % 2 ? -1 : 1) * (1000.5 * (i + 1) + 10 * k + o + 0.125), (char)((o + k) % 3 ? '0' + o % 10 : ' '), (char)((o + i) % 3 ? '1' + (o + k) % 8 : ' ')}); b.b.push_back(q); }
  return b;
}
// the block is as described; when cut, the last beacon's values from number cutval on are missing (that one itself unknown when cut in the middle)
void compare(mc::Ctx &c, const dso::RinexDataBlockIterator &it, const Block &b, const std::vector<int> &f, int cutval = -1, bool part = false) {
  c.check(it.cheader.m_epoch == dt(b.t), "epoch of the block");
  double off = b.has_off ? b.off : dso::RECEIVER_CLOCK_OFFSET_MISSING;
  c.check(it.cheader.m_clock_offset == off || (b.has_off && mc::close(it.cheader.m_clock_offset, off, 1e-15)), "clock offset %.12g instead of %.12g", it.cheader.m_clock_offset, off);
  c.check(it.cheader.m_flag == b.flag, "epoch flag %d instead of %d", (int)it.cheader.m_flag, b.flag);
  c.check(it.cheader.m_clock_flag == (b.has_cflag ? b.cflag : 0), "clock flag %d", (int)it.cheader.m_clock_flag);
  c.check(it.cheader.m_num_stations == (int)b.b.size() && it.cblock.size() == b.b.size(), "%d/%zu beacons instead of %zu", (int)it.cheader.m_num_stations, it.cblock.size(), b.b.size());
  for (size_t k = 0; k < b.b.size(); k++) {
    auto &g = it.cblock[k]; auto &w = b.b[k];
    c.check(std::string(g.id(), 3) == w.in, "beacon %zu is %.3s instead of %s", k, g.id(), w.in.c_str());
    c.check(g.m_values.size() == w.v.size(), "beacon %zu has %zu values instead of %zu", k, g.m_values.size(), w.v.size());
    for (size_t o = 0; o < w.v.size(); o++) {
      bool last = k + 1 == b.b.size() && cutval >= 0; bool at = last && part && (int)o == cutval, after = last && !at && (int)o >= cutval; if (at) continue;
      double want = w.v[o].f == Val::NUM && w.v[o].v != 0 && !after ? w.v[o].v / f[o] : dso::OBSERVATION_VALUE_MISSING;
      c.check(g.m_values[o].m_value == want || mc::close(g.m_values[o].m_value, want, 4e-16), "beacon %zu value %zu is %.12g instead of %.12g", k, o, g.m_values[o].m_value, want);
      char f1 = after ? ' ' : w.v[o].f1, f2 = after ? ' ' : w.v[o].f2;
      c.check(g.m_values[o].m_flag1 == f1 && g.m_values[o].m_flag2 == f2, "beacon %zu value %zu flags '%c%c' instead of '%c%c'", k, o, g.m_values[o].m_flag1, g.m_values[o].m_flag2, f1, f2);
    }
    // a look-up finds the first record of a beacon
    size_t first = k; for (size_t j = 0; j < k; j++) if (b.b[j].in == w.in) { first = j; break; }
    c.check(const_cast<dso::RinexDataBlockIterator &>(it).contains_beacon(w.in.c_str()) - it.cblock.begin() == (long)first, "contains_beacon");
  }
}
struct F { std::string name; ~F() { ::unlink(name.c_str()); } };
MC_SCENARIO("blocks", 2, 3) {
  static const int NO[] = {1, 5, 6, 10, 2, 4, 9}; int no = NO[c.choose(c.thorough() ? 7 : 4, "observables")], sc = c.thorough() ? c.choose(3, "scale") : 2 * c.choose(2, "scale"); Header H = head(no, sc); auto f = H.factors();
  int nblk = c.choose(c.thorough() ? 4 : 3, "blocks"); std::vector<Block> B; for (int i = 0; i < nblk; i++) B.push_back(block(i, c.choose(c.thorough() ? 4 : 3, "beacons"), no));
  int wb = 0; // the block a deviation is about
  auto target = [&]() -> Block & { if (!nblk) c.skip(); wb = c.choose(nblk, "block"); return B[wb]; };
  auto value = [&]() -> Val & { Block &b = target(); if (b.b.empty()) c.skip(); return b.b[c.choose(b.b.size(), "beacon")].v[c.choose(no, "value")]; };
  for (int rep = 0; rep < 2; rep++) switch (c.deviate(11, "value or field")) {
    case 1: { Val &v = value(); v.f = Val::BLANK; v.f1 = v.f2 = ' '; } break;
    case 2: { Val &v = value(); v.f = Val::ZERO; } break;
    case 3: { Val &v = value(); v.v = c.flip("sign") ? -999999999.999 : 9999999999.999; } break;
    case 4: { Val &v = value(); v.v = 0.001; v.f1 = '9'; v.f2 = 'x'; } break;
    case 5: { Block &b = target(); b.has_off = false; } break;
    case 6: { Block &b = target(); b.has_off = b.has_cflag = false; } break;
    case 7: { Block &b = target(); b.flag = 1; b.cflag = 1 - b.cflag; } break;
    case 8: { Block &b = target(); if (b.b.empty()) c.skip(); for (auto &v : b.b[c.choose(b.b.size(), "beacon")].v) { v.f = Val::BLANK; v.f1 = v.f2 = ' '; } } break; // a beacon with nothing
    case 9: { Block &b = target(); b.off = c.flip("small") ? 0.0 : 999.999999999; } break;
    case 10: { Block &b = target(); if (b.b.size() < 2) c.skip(); b.b[1].in = b.b[0].in; } break;
    }
  std::vector<std::vector<std::string>> L; for (auto &b : B) L.push_back(lines(b));
  int bad = -1; bool either = false, unsure = false; int skipb = -1;
  switch (c.deviate(17, "damage")) {
  case 0: break;
  case 1: for (auto &l : L) for (auto &s : l) s = rtrim(s); break; // trailing blanks trimmed (legal)
  case 2: { if (target().b.empty()) c.skip(); auto &l = L[wb]; l.erase(l.begin() + c.choose(l.size(), "dropped line")); bad = wb; } break;
  case 3: { if (target().b.empty()) c.skip(); auto &l = L[wb]; int j = c.choose(l.size(), "doubled line"); l.insert(l.begin() + j, l[j]); bad = wb; if (j > 0) bad = wb; } break;
  case 4: { target(); auto &l = L[wb]; if (l.size() < 2) c.skip(); int j = 1 + c.choose(l.size() - 1, "line"); l[j][0] = c.flip("kind") ? 'E' : '>'; bad = wb; } break;
  case 5: { target(); auto &l = L[wb]; if (l.size() < 2) c.skip(); int j = 1 + c.choose(l.size() - 1, "line"), o = c.choose(std::min(5, (int)(l[j].size() - 3) / 16), "value"); static const char *G[] = {"           abc", "   12.3    4.5", "        1.5x  ", "             -"}; l[j].replace(3 + 16 * o, 14, G[c.choose(4, "garbage")]); bad = wb; } break;
  case 6: { target(); L[wb][0][0] = ' '; bad = wb; } break;
  case 7: { target(); static const struct { int col; const char *t; } G[] = {{2, "20x0"}, {7, "13"}, {10, "32"}, {16, "ab"}, {31, "  x"}, {31, "   "}, {34, "  x"}, {34, "   "}, {34, " -1"}, {43, "          abc"}, {43, "   1.5     2 "}, {57, "x"}}; auto &g = G[c.choose(12, "field")]; L[wb][0].replace(g.col, strlen(g.t), g.t); bad = wb; } break;
  case 8: { target(); char n[8]; snprintf(n, 8, "%3d", (int)B[wb].b.size() + 1); L[wb][0].replace(34, 3, n); bad = wb; } break;
  case 9: { target(); if (B[wb].b.empty()) c.skip(); char n[8]; snprintf(n, 8, "%3d", (int)B[wb].b.size() - 1); L[wb][0].replace(34, 3, n); bad = wb; } break;
  case 10: { target(); auto &l = L[wb]; int j = c.choose(l.size(), "line"); l[j].resize(83, ' '); l[j] += std::string(c.flip("long") ? 300 : 41, ' '); either = true; bad = wb; } break; // over-long lines
  case 11: { target(); auto &l = L[wb]; l.insert(l.begin() + c.choose(l.size() + 1, "at"), ""); bad = wb; unsure = true; } break; // an empty line
  case 12: skipb = nblk ? c.choose(nblk, "skipped") : (c.skip(), 0); break; // step over a block without decoding it (legal)
  case 13: { target(); L[wb][0].replace(34, 3, "999"); bad = wb; } break;
  case 14: { target(); auto &l = L[wb]; if (no <= 5 || l.size() < 3) c.skip(); l[2].replace(0, 3, "D01"); bad = wb; } break; // a continuation that begins like a beacon
  case 15: { target(); auto &l = L[wb]; if (no <= 5 || l.size() < 3) c.skip(); std::swap(l[1], l[2]); bad = wb; } break;
  case 16: { target(); L[wb][0].resize(c.choose(2, "cut") ? 33 : 20); bad = wb; } break; // a clipped epoch line
  }
  std::string hd = H.text(), txt = hd; for (auto &l : L) for (auto &s : l) txt += s + "\n";
  c.note("%s", txt.c_str() + hd.size());
  if (nblk && txt.size() > hd.size() && c.deviate(2, "final newline")) txt.pop_back();
  F fl{std::string(c.scratch()) + "/b.rnx"}; mc::write_file(fl.name.c_str(), txt);
  static const int ERR[] = {0, ERANGE}; int er = c.deviate(2, "errno before");
  dso::DorisObsRinex r(fl.name.c_str()); dso::RinexDataBlockIterator it(&r); mc::Hash h;
  for (int i = 0; i <= nblk; i++) {
    mc::dirty_stack(i % 2 ? '8' : 0xFF); errno = ERR[er]; c.step();
    if (i == skipb) { char b[300]; r.stream().getline(b, dso::DorisObsRinex::MAX_RECORD_CHARS); dso::RinexDataRecordHeader q; c.check(r.resolve_data_epoch(b, q) == 0 && q.m_num_stations == (int)B[i].b.size() && q.m_epoch == dt(B[i].t), "epoch line of a skipped block"); r.skip_data_block(q); continue; }
    int st = it.next(); h.i(st);
    if (i == nblk) { if (bad < 0 || (either && nblk)) c.check(st == -1, "status %d at the end of the data", st); break; }
    if (i < bad || bad < 0) { c.check(st == 0, "block %d: status %d\n%s", i, st, txt.c_str() + hd.size()); compare(c, it, B[i], f); continue; }
    // the damaged block
    if (st) { break; } // reported
    if (either) { compare(c, it, B[i], f); continue; }
    // it may look whole by itself when the damage comes after its last value; then the next block must not
    int s2 = it.next();
    if (unsure && s2 <= 0) { // the empty line was stepped over: nothing may have changed
      dso::DorisObsRinex r2(fl.name.c_str()); dso::RinexDataBlockIterator i2(&r2); for (int j = 0; j < nblk; j++) { c.check(i2.next() == 0, "block %d", j); compare(c, i2, B[j], f); } break;
    }
    c.check(s2 > 0, "damage to block %d went unnoticed (status %d then %d)\n%s", i, st, s2, txt.c_str() + hd.size());
    break;
  }
  mc::Hash g; g.s(txt.c_str()); c.state(g.h); c.outcome(h.h);
}
MC_SCENARIO("cuts", 0, 0) { // every byte prefix
  static const int NO[] = {1, 5, 6, 10}; int no = c.pick(NO, "observables"); Header H = head(no, c.thorough() ? c.choose(3, "scale") : 2); auto f = H.factors(); std::vector<Block> B{block(0, 2, no), block(1, c.choose(3, "beacons"), no)};
  std::string hd = H.text(); std::vector<std::string> all; std::vector<int> own; for (int i = 0; i < 2; i++) for (auto &s : lines(B[i])) { all.push_back(s); own.push_back(i); }
  int l = c.choose(all.size(), "line"), col = c.choose(84, "column"); if (col > (int)all[l].size()) c.skip();
  bool full = col == (int)all[l].size(); std::string txt = hd; for (int i = 0; i < l; i++) txt += all[i] + "\n"; txt += all[l].substr(0, col);
  F fl{std::string(c.scratch()) + "/c.rnx"}; mc::write_file(fl.name.c_str(), txt);
  dso::DorisObsRinex r(fl.name.c_str()); dso::RinexDataBlockIterator it(&r);
  int cutb = own[l]; bool lastline = l + 1 == (int)all.size() || own[l + 1] != cutb; int nl = 0; for (int i = 0; i < l; i++) nl += own[i] == cutb;
  for (int i = 0; i <= cutb; i++) {
    mc::dirty_stack(i % 2 ? '8' : '6'); errno = 0; c.step(); int st = it.next();
    if (i < cutb || (full && lastline)) { c.check(st == 0, "block %d: status %d", i, st); compare(c, it, B[i], f); }
    else if (!lastline) c.check(st != 0, "a block cut in its line %d, column %d was read\n%s", nl, col, txt.c_str() + hd.size());
    else if (B[i].b.empty()) { if (st == 0) { c.check(col >= 37, "an epoch line cut at column %d was read", col); } }
    else if (st == 0) { int per = (no + 4) / 5; int base = ((nl - 1) % per) * 5; int v = col < 3 ? base : base + (col - 3) / 16; bool inside = col >= 3 && (col - 3) % 16 != 0; if ((nl - 1) % per == 0 && col < 3) c.fail("a beacon line cut at column %d was read", col);
      compare(c, it, B[i], f, v, inside); }
    c.outcome(st);
  }
  if (full && lastline) c.check(it.next() == -1, "no end of data");
  mc::Hash h; h.s(txt.c_str()); c.state(h.h);
}
MC_SCENARIO("two readers", 0, 0) {
  int noA = c.flip("first") ? 10 : 6, noB = c.flip("second") ? 5 : 9; Header A = head(noA, 1), B = head(noB, 2); auto fa = A.factors(), fb = B.factors(); const int N = c.thorough() ? 4 : 3; std::vector<Block> ba, bb;
  for (int i = 0; i < N; i++) { ba.push_back(block(i, 2, noA)); bb.push_back(block(i + 1, 1 + i % 2, noB)); } ba[1].has_off = false; ba[1].b[0].v[2].f = Val::BLANK; bb[0].b[0].v[0].f = Val::BLANK; bb[0].b[0].v[0].f1 = bb[0].b[0].v[0].f2 = ' '; ba[1].b[0].v[2].f1 = ba[1].b[0].v[2].f2 = ' ';
  std::string ta = A.text(), tb = B.text(); for (auto &b : ba) for (auto &s : lines(b)) ta += rtrim(s) + "\n"; for (auto &b : bb) for (auto &s : lines(b)) tb += rtrim(s) + "\n";
  F f1{std::string(c.scratch()) + "/1.rnx"}, f2{std::string(c.scratch()) + "/2.rnx"}; mc::write_file(f1.name.c_str(), ta); mc::write_file(f2.name.c_str(), tb);
  dso::DorisObsRinex ra(f1.name.c_str()), rb(f2.name.c_str()); dso::RinexDataBlockIterator ia(&ra), ib(&rb); int na = 0, nb = 0; bool ea = false, eb = false; mc::Hash h;
  while (!(ea && eb)) {
    int w = ea ? 1 : eb ? 0 : c.choose(2, "reader"); auto &it = w ? ib : ia; auto &n = w ? nb : na; bool skip = n < N && c.choose(2, "skip"); c.step(); h.i(w * 2 + skip); c.state(h.h);
    if (skip) { char b[300]; auto &r = w ? rb : ra; r.stream().getline(b, dso::DorisObsRinex::MAX_RECORD_CHARS); dso::RinexDataRecordHeader q; c.check(r.resolve_data_epoch(b, q) == 0, "epoch"); r.skip_data_block(q); n++; continue; }
    int st = it.next(); if (n == N) { c.check(st == -1, "status %d after the last block", st); (w ? eb : ea) = true; continue; }
    c.check(st == 0, "reader %d block %d: status %d", w, n, st); compare(c, it, w ? bb[n] : ba[n], w ? fb : fa); n++;
    // the other reader's block stays what it was
    auto &ot = w ? ia : ib; int m = (w ? na : nb) - 1; if (m >= 0 && !ot.cblock.empty() && ot.cheader.m_epoch == dt((w ? ba : bb)[m].t)) compare(c, ot, w ? ba[m] : bb[m], w ? fa : fb);
  }
  c.outcome(h.h);
}
MC_SCENARIO("many beacons", 0, 0) {
  static const int NB[] = {9, 10, 99, 100, 150}; int nb = c.pick(NB, "beacons"), no = c.flip("obs") ? 10 : 3; Header H = head(no, 1); Block b = block(0, nb, no), d = block(1, 1, no); if (c.flip("flag")) b.flag = 1; std::string t = H.text(); for (auto &s : lines(b)) t += s + "\n"; for (auto &s : lines(d)) t += s + "\n";
  F fl{std::string(c.scratch()) + "/m.rnx"}; mc::write_file(fl.name.c_str(), t); dso::DorisObsRinex r(fl.name.c_str()); dso::RinexDataBlockIterator it(&r); auto f = H.factors(); c.step(3);
  c.check(it.next() == 0, "block of %d beacons", nb); compare(c, it, b, f); c.check(it.next() == 0, "the block after"); compare(c, it, d, f); c.check(it.next() == -1, "end"); c.state(nb * 10 + no); c.outcome(nb);
}
} // namespace
MC_PROPERTY("R02", "model_checking",
  "every file over observable counts around the five-per-line limit, scale-factor forms, blocks of a few beacons, combined with every set of up to the stated number of deviations: missing values (blank, zero), extreme values, flags, clock offset absent, duplicated beacons, trailing blanks trimmed, blocks skipped, damages of any line (dropped, doubled, clipped, garbage in any field, counts that disagree); every byte prefix of two-block files; every interleaving of reading and skipping over two readers; blocks of up to 150 beacons",
  "2 deviations over up to 2 blocks of up to 2 beacons, 3 blocks per reader (quick) / 3 deviations over up to 3 blocks of up to 3 beacons, 4 blocks per reader (thorough)",
  "the external date parser is a stand-in that throws on malformed dates",
  "a value cut in the middle of its digits by the end of the file cannot be told from a shorter one; epoch flags above 1 (special events) are not interpreted; an over-long line may be read or refused")
