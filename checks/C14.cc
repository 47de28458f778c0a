// C14: damaged data files are never read as if they were intact.
#include "sdf_common.h"
#include <new>
// Memory handed out by new holds bytes chosen by the exploration (an allocator
// may return anything, e.g. the remains of another file that was read before).
static S junk; static size_t junk_at = 0;
static void *fresh(size_t n) {
  void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
  if (!junk.empty() && n < 4096) { for (size_t i = 0; i < n; i++) ((char *)p)[i] = junk[i % junk.size()]; }
  return p;
}
void *operator new(size_t n) { return fresh(n); }
void *operator new[](size_t n) { return fresh(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

typedef std::vector<Val> File;
static S path() { return mc::need_scratch() + "/f.dat"; }
static S showf(const File &f) { S s; for (auto &v : f) s += show(v) + "; "; return s.substr(0, 400); }
static std::vector<Val> alphabet() {
  std::vector<Val> a;
  a.push_back(named(vint(-7), "i")); a.push_back(named(vcplx(cd(1, -2)), "c"));
  a.push_back(named(vrt(rnum({2, 3}, 1)), "r")); a.push_back(named(vrt(rnum({0, 3})), "")); a.push_back(named(vrt(rnum({})), "sdf"));
  a.push_back(named(vct(cnum({3}, 2)), "ct")); a.push_back(named(vrv({rnum({2}), rnum({0})}), "v")); a.push_back(named(vrv({}), "n"));
  a.push_back(named(vcv({cnum({1, 2}, 3)}), S(63, 'n'))); a.push_back(named(vcv({cnum({}), cnum({1})}), "i"));
  return a;
}
// the bytes of a file holding w, and the position after each record
static S bytes_of(const File &w, std::vector<size_t> *ends) {
  S p = path(); unlink(p.c_str()); unlink((p + ".lck").c_str());
  if (ends) ends->clear();
  for (size_t i = 0; i <= w.size(); i++) {
    { sdf::OutDataFile f(p); if (i) dump(f, w[i - 1]); }
    if (ends) ends->push_back(slurp(p).size());
  }
  return slurp(p);
}
// Reads the records of w in order; returns how many came back, all identical.
// wrong: something else than what was written came back.
static size_t read_some(const S &p, const File &w, bool names, int mode, bool *wrong, S *what) {
  size_t n = 0; *wrong = false;
  bool rej = rejected([&] {
    sdf::InDataFile f(p, mode);
    for (; n < w.size(); n++) { Val g = load(f, w[n].k, names ? w[n].name : S()); if (!same_value(g, w[n])) { *wrong = true; *what = "record " + std::to_string(n) + " read as " + show(g); return; } }
  });
  unlink((p + ".lck").c_str());
  (void)rej;
  return n;
}
static void truncations(const File &w, int mode, const S &fill, bool names) {
  std::vector<size_t> ends; junk.clear(); S b = bytes_of(w, &ends), p = path();
  mc::nontrivial();
  for (size_t t = 0; t <= b.size(); t++) {
    spew(p, b.substr(0, t));
    size_t whole = 0; while (whole + 1 < ends.size() && ends[whole + 1] <= t) whole++;
    bool wrong; S what; junk = fill;
    size_t got = read_some(p, w, names, MODES[mode], &wrong, &what);
    junk.clear();
    mc::Str m; m << showf(w) << " cut to " << t << " of " << b.size() << " bytes: ";
    if (wrong) { mc::fail(S(m) + what); return; }
    if (got != whole) { mc::fail(m << got << " records read, " << whole << " are complete"); return; }
    if (t < ends[0] && t > 0) { bool opened = !rejected([&] { junk = fill; sdf::InDataFile f(p, MODES[mode]); }); junk.clear(); unlink((p + ".lck").c_str()); if (opened) { mc::fail(m << "opened without its header"); return; } }
    if (slurp(p) != b.substr(0, t)) { mc::fail(m << "reading changed the file"); return; }
  }
  mc::state(std::hash<S>()(b + char('0' + mode)));
}
struct Field { size_t at, len; char kind; int rec; };   // kind: h header, n name, t tag, l lengths
static void field_list(const S &b, size_t at, const Val &v, int rec, std::vector<Field> &f) {
  auto tensor_fields = [&](size_t p, size_t rank, size_t bytes) { f.push_back(Field{p, 8, 'l', rec}); f.push_back(Field{p + 8, 8 * rank, 'l', rec}); f.push_back(Field{p + 8 + 8 * rank, 8, 'l', rec}); return p + 16 + 8 * rank + bytes; };
  f.push_back(Field{at, 64, 'n', rec}); f.push_back(Field{at + 64, 8, 't', rec});
  size_t p = at + 72;
  if (v.k == RV || v.k == CV) {
    f.push_back(Field{p, 8, 'v', rec}); p += 8;
    for (size_t i = 0; i < v.r.size() + v.q.size(); i++) {
      f.push_back(Field{p, 64, 'x', rec}); f.push_back(Field{p + 64, 8, 't', rec});
      p = v.k == RV ? tensor_fields(p + 72, v.r[i].d.size(), 8 * v.r[i].v.size()) : tensor_fields(p + 72, v.q[i].d.size(), 16 * v.q[i].v.size());
    }
  } else if (v.k == RT) tensor_fields(p, v.r[0].d.size(), 8 * v.r[0].v.size());
  else if (v.k == CT) tensor_fields(p, v.q[0].d.size(), 16 * v.q[0].v.size());
  else tensor_fields(p, 1, v.k == CPLX ? 16 : 8);
}
static void corruptions(const File &w, int part) {
  std::vector<size_t> ends; junk.clear(); S b = bytes_of(w, &ends), p = path();
  mc::nontrivial();
  std::vector<Field> fs; fs.push_back(Field{0, 6, 'h', -1});
  for (size_t i = 0; i < w.size(); i++) field_list(b, ends[i], w[i], i, fs);
  // the layout of the files is as described above (otherwise there is nothing to say here)
  for (auto &f : fs) if (f.kind == 't') { long tag; if (f.at + 8 > b.size()) return; memcpy(&tag, &b[f.at], 8); if (tag < 0 || tag > 3) return; }
  for (auto &f : fs) for (size_t k = 0; k < f.len; k++) for (int x = 1; x < 256; x++) {
    if ((int)((f.at + k) % 4) != part) continue;
    size_t at = f.at + k; bool must = false;
    if (f.kind == 'h' || f.kind == 't') must = true;
    else if (f.kind == 'n') { size_t l = w[f.rec].name.size(); if (k > l) { if (x > 3) continue; } else must = !w[f.rec].name.empty() && l < 63; if (x > 4 && x % 37) continue; }
    else if (f.kind == 'x') { if (x % 50 != 1) continue; }
    else { size_t byte = (k % 8); if (byte >= 3 && byte != 7) continue; if (f.kind == 'v' && byte == 2) continue; if (byte == 2 && x > 2) continue; }
    S d = b; d[at] ^= x; spew(p, d);
    bool wrong; S what; size_t got = read_some(p, w, true, MODES[0], &wrong, &what);
    mc::Str m; m << showf(w) << " byte " << at << " changed from " << (int)(unsigned char)b[at] << " to " << (int)(unsigned char)d[at] << ": ";
    size_t intact = f.rec < 0 ? 0 : f.rec;
    if (got < intact) { mc::fail(m << "only " << got << " records read"); return; }
    if (must && got > intact) { mc::fail(m << "accepted"); return; }
    if (must && wrong) { mc::fail(S(m) + what); return; }
    if (slurp(p) != d) { mc::fail(m << "reading changed the file"); return; }
    mc::state((uint64_t)at * 1000003 + x + std::hash<S>()(b));
  }
  // a name without terminator
  for (size_t i = 0; i < w.size(); i++) { S d = b; for (int k = 0; k < 64; k++) d[ends[i] + k] = 'q'; spew(p, d); for (bool nm : {false, true}) { bool wrong; S what; size_t got = read_some(p, w, nm, MODES[0], &wrong, &what); if (wrong || (nm && got > i && !w[i].name.empty())) { mc::fail(showf(w) + " with a name of 64 characters: " + what); return; } } }
}

void explore() {
  const bool Th = mc::thorough;
  auto al = alphabet(); int A = al.size();
  S head; mc::prelude(DESC { return S("an intact file"); }, [&] { head = bytes_of({al[2]}, 0); });
  std::vector<S> fills = {S(), S(1, '\0'), head.substr(0, 64), head.size() > 64 ? head.substr(64) : S("x"), S("\x01\0\0\0\0\0\0\0", 8)};
  for (int a = 0; a < A; a++) for (int b = -1; b < A; b++) mc::run_case(DESC { return "every length of " + showf(b < 0 ? File{al[a]} : File{al[a], al[b]}); }, [&] {
    mc::group("truncations");
    File w = b < 0 ? File{al[a]} : File{al[a], al[b]};
    for (size_t f = 0; f < fills.size() && !mc::failed(); f++) { truncations(w, 0, fills[f], f % 2); if (b >= 0 && !Th && f == (size_t)(a + b) % 3 + 1) break; }
    if (b < 0) for (int mode : {1, 2}) if (!mc::failed()) truncations(w, mode, fills[2], true);
  });
  if (Th) for (int a = 0; a < A; a++) for (int b = 0; b < A; b++) for (int c = 0; c < A; c++) mc::run_case(DESC { return "every length of " + showf({al[a], al[b], al[c]}); }, [&] { mc::group("truncations"); truncations({al[a], al[b], al[c]}, 0, fills[(a + b + c) % 5], a % 2); });
  for (int a = 0; a < A; a++) for (int b = -1; b < (Th ? A : 1); b++) for (int part = 0; part < 4; part++) mc::run_case(DESC { return mc::Str() << "every change of one byte, part " << part << ", of " << showf(b < 0 ? File{al[a]} : File{al[a], al[(a * 3 + b + 1) % A]}); }, [&] {
    mc::group("changes of one byte");
    corruptions(b < 0 ? File{al[a]} : File{al[a], al[(a * 3 + b + 1) % A]}, part);
  });
  // larger records: cuts around every multiple of a kilobyte and at the end
  for (auto &v : {vrt(rnum({65, 33})), vct(cnum({4097})), vrv(std::vector<Ref<double> >(40, rnum({3, 3})))}) mc::run_case(DESC { return "cuts of " + show(v).substr(0, 100); }, [&] {
    mc::group("truncations"); mc::nontrivial();
    File w = {named(v, "big"), named(vint(1), "i")}; std::vector<size_t> ends; S b = bytes_of(w, &ends), p = path();
    for (size_t t = 0; t < b.size(); t++) {
      if (!(t % 1024 < 2 || t % 1024 > 1021 || t + 200 > b.size() || (t + 70 > ends[1] && t < ends[1] + 70))) continue;
      spew(p, b.substr(0, t)); bool wrong; S what; size_t got = read_some(p, w, true, MODES[0], &wrong, &what), whole = t >= ends[1];
      if (wrong || got != whole) { mc::fail(mc::Str() << "cut to " << t << ": " << got << " records read " << what); return; }
    }
  });
  // headers: all combinations of the three digits, all words of the letters, lengths
  for (int part = 0; part < 10; part++) mc::run_case(DESC { return mc::Str() << "headers with first digit " << part; }, [&] {
    mc::group("headers"); mc::nontrivial(); S p = path();
    auto refuse = [&](const S &d, const S &what) { spew(p, d); bool rej = rejected([&] { sdf::InDataFile g(p, MODES[part % 3]); }); unlink((p + ".lck").c_str()); mc::transition(); if (!rej) mc::fail("opened with the header " + what + " instead of " + head.substr(0, 6)); mc::state(std::hash<S>()(d)); return rej; };
    for (int y = 0; y < 10; y++) for (int z = 0; z < 10; z++) { S d = head; d[3] = '0' + part; d[4] = '0' + y; d[5] = '0' + z; if (d != head && !refuse(d, d.substr(0, 6))) return; }
    S letters = "sdfSDF \n"; letters += '\0'; letters += char(part + 1);
    for (int x = 0; x < (int)letters.size(); x++) for (int y = 0; y < (int)letters.size(); y++) { S d = head; d[0] = letters[part % letters.size()]; d[1] = letters[x]; d[2] = letters[y]; if (d != head && !refuse(d, d.substr(0, 6))) return; }
    for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) { S d = head; std::swap(d[x], d[y]); d[(x + part) % 6] ^= 1 << part % 8; if (d != head && !refuse(d, d.substr(0, 6))) return; }
  });
  // files that are no data files
  for (int k = 0; k < 8; k++) for (size_t f = 0; f < fills.size(); f++) mc::run_case(DESC { return mc::Str() << "no data file " << k << " memory " << f; }, [&] {
    mc::group("no data files"); mc::nontrivial();
    S p = path(); unlink(p.c_str()); S b = head;
    if (k == 0) ;                                  // does not exist
    else if (k == 1) spew(p, "");
    else if (k == 2) spew(p, S(500, '\0'));
    else if (k == 3) spew(p, S(500, 'x'));
    else if (k == 4) { std::reverse(b.begin(), b.end()); spew(p, b); }
    else if (k == 5) spew(p, b.substr(1));
    else if (k == 6) spew(p, "\n" + b);
    else { p = mc::need_scratch(); }               // a directory
    for (int mode = 0; mode < 3; mode++) {
      if (k == 7 && mode == 0) continue;
      // another file was read just before
      S q = mc::need_scratch() + "/good.dat"; spew(q, head); { sdf::InDataFile g(q); RTensor t; g.load(&t); }
      bool wrong = false; S what; junk = fills[f];
      bool rej = rejected([&] { sdf::InDataFile g(p, MODES[mode]); });
      junk.clear(); unlink((p + ".lck").c_str()); mc::transition();
      if (!rej) { mc::fail(mc::Str() << "opened in mode " << MNAME[mode]); return; }
      (void)wrong; (void)what;
    }
    if (k == 0 && present(p)) mc::fail("reading created the file");
  });
}
