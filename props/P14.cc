// P14: the frame buffer behaves as a ring of frames over the sequence (model-based histories).
#include "frames.h"

struct Slot { FrameM f; bool links = true; bool undef = false; bool fresh = false; };     // model of one buffered frame
struct Disk { bool any = false, has_prio = false; FrameM f; std::vector<bool> targ_ok; bool rt_ok = true, link_ok = true, prio_ok = true; };

static void check_slot(const Slot& m, const frame* g, int cams, const char* when, int pos) {
  if (m.undef) return;
  PBT_CHECK(g->num_cams == cams, "%s: frame %d has %d cameras", when, pos, g->num_cams);
  PBT_CHECK(g->num_parts == (int)m.f.parts.size(), "%s: frame %d has %d particles, expected %zu", when, pos, g->num_parts, m.f.parts.size());
  for (size_t k = 0; k < m.f.parts.size(); k++) { Part q = get(g->path_info[k], g->correspond[k]); PBT_CHECK(same(q, m.f.parts[k]), "%s: frame %d particle %zu is %s, expected %s", when, pos, k, show(q).c_str(), show(m.f.parts[k]).c_str()); if (m.fresh) check_fresh(g->path_info[k], when); }
  for (int c = 0; c < cams; c++) { PBT_CHECK(g->num_targets[c] == (int)m.f.targ[c].size(), "%s: frame %d camera %d has %d targets, expected %zu", when, pos, c, g->num_targets[c], m.f.targ[c].size()); for (size_t k = 0; k < m.f.targ[c].size(); k++) PBT_CHECK(same(g->targets[c][k], m.f.targ[c][k]), "%s: frame %d camera %d target %zu is %s", when, pos, c, k, show(g->targets[c][k]).c_str()); }
}

PBT_SUB(ring, 12000, 300000) {
  int len = (int)s.i(1, 6), cams = (int)s.i(1, 4), cap = (int)s.i(1, 7); bool use_prio = s.chance(4, 5); std::string rt = gen_base(s, "rt"), li = gen_base(s, "ptv"), pr = gen_base(s, "added"); std::vector<std::string> tb; std::vector<char*> tp; for (int c = 0; c < cams; c++) tb.push_back(gen_base(s, ("cam" + std::to_string(c) + "_").c_str())); for (auto& b : tb) tp.push_back((char*)b.c_str());
  std::map<int, Disk> disk; int nframes = (int)s.i(2, 5); for (int f = 1; f <= nframes; f++) { for (auto& b : {rt, li, pr}) unlink(frame_name(b, f).c_str()); for (auto& b : tb) unlink(targets_name(b, f).c_str()); }
  framebuf fb; framebuf_base* B = (framebuf_base*)&fb; fb_init(&fb, len, cams, cap, (char*)rt.c_str(), (char*)li.c_str(), use_prio ? (char*)pr.c_str() : nullptr, tp.data());
  s.note("%d frames, %d cameras, room for %d%s:", len, cams, cap, use_prio ? "" : ", no priority files"); { char b[40]; snprintf(b, 40, "length:%d", len); s.label(b); } if (cap < cams) s.label("fewer targets than cameras");
  for (int f = 1; f <= nframes; f++) if (s.chance(3, 4)) {      // frames on disk at the start
    Disk d; d.any = true; int n = (int)s.i(1, cap); Exact<P> p(n); Exact<corres> c(n); for (int k = 0; k < n; k++) { d.f.parts.push_back(gen_part(s, k)); put(d.f.parts[k], p[k], c[k], s); } d.f.targ.resize(cams); PBT_CHECK(write_path_frame(c.p, p.p, n, (char*)rt.c_str(), (char*)li.c_str(), use_prio ? (char*)pr.c_str() : nullptr, f), "writing reports failure");
    for (int q = 0; q < cams; q++) { int t = (int)s.i(0, cap); for (int k = 0; k < t; k++) d.f.targ[q].push_back(gen_target(s)); auto v = d.f.targ[q]; PBT_CHECK(write_targets(v.data(), t, tp[q], f), "writing reports failure"); } disk[f] = d; }
  std::vector<Slot> ring(len); size_t start = 0; for (auto& q : ring) q.f.targ.resize(cams); auto at = [&](int i) -> Slot& { return ring[(start + i) % len]; }; int ops = (int)s.i(1, 25); int moves = 0, reads = 0, writes = 0; int fd = fdprobe();
  auto check = [&](const char* when) { std::set<frame*> seen; for (int i = 0; i < len; i++) { check_slot(at(i), B->buf[i], cams, when, i); seen.insert(B->buf[i]); } PBT_CHECK((int)seen.size() == len, "%s: two positions hold the same frame", when); PBT_CHECK(B->buf_len == len && B->num_cams == cams, "%s: buffer size changed", when); };
  check("new buffer");
  for (int o = 0; o < ops; o++) {
    switch (s.draw(6)) {
      case 0: case 1: fb_next(B); start = (start + 1) % len; moves++; s.note(" next"); check("after stepping on"); break;
      case 2: fb_prev(B); start = (start + len - 1) % len; moves++; s.note(" prev"); check("after stepping back"); break;
      case 3: {     // fill a frame in memory
        int i = (int)s.i(0, len - 1); Slot& m = at(i); frame* g = B->buf[i]; m = Slot(); m.f.targ.resize(cams); int n = (int)s.i(0, cap); for (int k = 0; k < n; k++) { m.f.parts.push_back(gen_part(s, k)); put(m.f.parts[k], g->path_info[k], g->correspond[k], s); } g->num_parts = n;
        for (int c = 0; c < cams; c++) { int t = (int)s.i(0, cap); for (int k = 0; k < t; k++) { m.f.targ[c].push_back(gen_target(s)); g->targets[c][k] = m.f.targ[c][k]; } g->num_targets[c] = t; } s.note(" fill[%d]=%d", i, n); check("after filling a frame"); break; }
      case 4: {     // write the first frame
        int f = (int)s.i(1, nframes); if (at(0).undef) break; s.note(" write %d", f); int r = fb_write_frame_from_start(B, f); PBT_CHECK(r, "writing frame %d reports failure", f); Disk d; d.any = true; d.f = at(0).f; disk[f] = d; writes++; check("after writing"); break; }
      default: {    // read a frame to the last position
        int f = (int)s.i(1, nframes + s.chance(1, 8)); bool links = s.b(); Slot& m = at(len - 1); bool ok = disk.count(f) && disk[f].f.parts.size(); s.note(" read %d%s", f, links ? " with links" : ""); int r = fb_read_frame_at_end(B, f, links); PBT_CHECK(ok ? r : (!r || (disk.count(f) && disk[f].f.parts.empty())), "reading frame %d (%s) returns %d", f, ok ? "on disk" : "missing or empty", r);
        if (!ok) { m.undef = true; s.label("read fails"); if (s.b()) { frame* g = B->buf[len - 1]; g->num_parts = 0; for (int c = 0; c < cams; c++) g->num_targets[c] = 0; m = Slot(); m.f.targ.resize(cams); } }
        else { m = Slot(); m.fresh = true; for (auto& q : disk[f].f.parts) m.f.parts.push_back(via_file(q, links, links && use_prio)); for (size_t k = 0; k < m.f.parts.size(); k++) m.f.parts[k].nr = (int)k + 1; m.f.targ.resize(cams); for (int c = 0; c < cams; c++) for (auto& t : disk[f].f.targ[c]) m.f.targ[c].push_back(via_file(t)); reads++; }
        check("after reading"); PBT_CHECK(fdprobe() == fd, "a file was left open"); }
    }
  }
  if (moves && (reads || writes)) s.nontrivial(); if (reads) s.label("frames read"); if (writes) s.label("frames written"); if (moves >= len) s.label("wraps around");
  fb_free(B); for (int f = 1; f <= nframes; f++) { for (auto& b : {rt, li, pr}) unlink(frame_name(b, f).c_str()); for (auto& b : tb) unlink(targets_name(b, f).c_str()); }
}

// link candidates are kept in order up to the place for them; resetting links leaves everything else
PBT_SUB(candidates, 60000, 1500000) {
  Exact<P> p(1); Part q = gen_part(s, 0); corres c; put(q, p[0], c, s); p[0].inlist = 0; P was = p[0]; int n = s.chance(1, 3) ? (int)s.i(70, 130) : (int)s.i(0, 12); std::vector<std::pair<float, int>> want; s.note("%d candidates", n); if (n) s.nontrivial(); s.label(n > POSI ? "more candidates than place" : "candidates fit");
  for (int k = 0; k < n; k++) { float fit = (float)s.r(0, 10); int cand = gen_int(s); register_link_candidate(&p[0], fit, cand); if (want.size() < POSI) want.push_back({fit, cand}); PBT_CHECK(p[0].inlist == (int)want.size(), "%d candidates counted after %d", p[0].inlist, k + 1); }
  for (int k = 0; k < POSI; k++) { if (k < (int)want.size()) PBT_CHECK(p[0].decis[k] == want[k].first && p[0].linkdecis[k] == want[k].second, "candidate %d is (%g, %d)", k, p[0].decis[k], p[0].linkdecis[k]); else PBT_CHECK(p[0].decis[k] == was.decis[k] && p[0].linkdecis[k] == was.linkdecis[k], "place %d was changed", k); }
  PBT_CHECK(p[0].finaldecis == was.finaldecis && p[0].prev == was.prev && p[0].next == was.next && p[0].prio == was.prio && !memcmp(p[0].x, was.x, sizeof was.x), "another field was changed");
  was = p[0]; reset_links(&p[0]); PBT_CHECK(p[0].prev == PREV_NONE && p[0].next == NEXT_NONE && p[0].prio == PRIO_DEFAULT, "links after reset: %d %d %d", p[0].prev, p[0].next, p[0].prio); was.prev = PREV_NONE; was.next = NEXT_NONE; was.prio = PRIO_DEFAULT; PBT_CHECK(!memcmp(&was, &p[0], sizeof was), "resetting links changed another field");
}
