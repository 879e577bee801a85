// Long messages with lost, repeated, swapped, cut off and foreign fragments.
#include "longmsg.hpp"

static std::vector<Piece> *inbox;
static void handler(void *p, unsigned len, uint8_t s, uint8_t st) { inbox->push_back({s, st, Bytes((uint8_t *) p, (uint8_t *) p + len)}); }

struct Rx
{
  unsigned len = 0, crc = 0, next = 1, all = 0;
  Bytes b;                 // not yet given to the user
  Bytes whole;
  unsigned long last = 0;
};

// A receiver as the protocol describes it. A header in the middle of the same stream ends the
// message that is being received; whether the new message is then received is open for the simple service.
struct Model
{
  std::map<int, Rx> rx;
};

struct Env
{
  bool ex, crc;
  unsigned buflen, contexts, timeout;
  std::set<int> subs;
};

static void start(const Env &v, Model &m, const Msg &f)
{
  if (!v.subs.count(f[1]) || f[7] != 0 || m.rx.size() >= v.contexts) return;
  Rx r;
  r.len = f[3] << 8 | f[4];
  r.crc = f[5] << 8 | f[6];
  r.last = world.ms;
  m.rx[f[1]] = r;
}

// Possible next states and what the handler is given in each.
static std::vector<std::pair<Model, std::vector<Piece>>> feed(const Env &v, const Model &m0, const Msg &f)
{
  Model m = m0;
  std::vector<Piece> out;
  int s = f[1];
  auto it = m.rx.find(s);
  if (it == m.rx.end())
  {
    if (f[2] == 0) start(v, m, f);
    return {{m, out}};
  }
  Rx &r = it->second;
  if (f[2] != (r.next & 0xFF))
  {
    // A header that is not understood or a fragment out of sequence
    if (f[2] == 0 && f[7] != 0 && v.ex) return {{m, out}};
    out.push_back({s, LM_SEQUENCE, r.b});
    m.rx.erase(it);
    Model again = m;
    if (f[2] == 0) start(v, again, f);
    if (f[2] == 0 && v.ex) return {{again, out}};
    if (f[2] == 0) return {{m, out}, {again, out}};
    return {{m, out}};
  }
  ++r.next;
  r.last = world.ms;
  for (int k = 3; k < 8; ++k)
  {
    r.b.push_back(f[k]);
    r.whole.push_back(f[k]);
    if (++r.all == r.len)
    {
      bool bad = v.ex && v.crc && r.crc && r.crc != lmCrc(r.whole);
      out.push_back({s, bad ? LM_CRC : LM_COMPLETE, r.b});
      m.rx.erase(it);
      break;
    }
    if (r.b.size() == v.buflen)
    {
      out.push_back({s, v.ex ? LM_TRUNCATED : LM_INCOMPLETE, r.b});
      r.b.clear();
      if (v.ex)
      {
        m.rx.erase(it);
        break;
      }
    }
  }
  return {{m, out}};
}

static void run(Case &c)
{
  world.reset();
  world.ms = c.weighted({6, 2, 2}) == 0 ? 1000 : c.chance(50) ? c.edgy(0, 4294000000l) : (unsigned long) -1 - c.range(0, 20000);
  Env v;
  v.ex = c.chance(50);
  v.crc = v.ex && c.chance(50);
  v.buflen = c.chance(70) ? c.range(1, 40) : c.edgy(1, 1300);
  v.contexts = v.ex ? c.range(1, 4) : 1;
  v.timeout = 5000;
  RamStorage st;
  NodeConf nc;
  nc.services = S_MNS | S_CAN;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  VLCB::LongMessageService base;
  VLCB::LongMessageServiceEx ext;
  std::unique_ptr<uint8_t[]> buf(new uint8_t[v.buflen]);
  unsigned nids = c.range(1, 6);
  std::unique_ptr<uint8_t[]> ids(new uint8_t[nids]);
  for (unsigned i = 0; i < nids; ++i)
  {
    ids[i] = c.sbyte();
    v.subs.insert(ids[i]);
  }
  Node node(nc, &st);
  node.extra.push_back(v.ex ? &ext : &base);
  node.boot();
  node.takeFrames();
  std::vector<Piece> got;
  inbox = &got;
  if (v.ex)
  {
    ext.allocateContexts(v.contexts, v.buflen, 1);
    ext.subscribe(ids.get(), nids, handler);
    ext.use_crc(v.crc);
  }
  else base.subscribe(ids.get(), nids, buf.get(), v.buflen, handler);
  if (c.chance(50))
  {
    v.timeout = c.edgy(20, 60000);
    v.ex ? ext.setTimeout(v.timeout) : base.setTimeout(v.timeout);
  }
  c.log("%s service, %u contexts, buffer %u, timeout %u%s", v.ex ? "extended" : "simple", v.contexts, v.buflen, v.timeout, v.crc ? ", CRC" : "");

  std::vector<Model> models(1);
  std::map<int, std::vector<Bytes>> sent; // messages by stream
  std::map<int, Bytes> pieces;            // delivered since the last start
  long complete = 0, errors = 0;
  bool open = false;

  auto note = [&](const char *what) {
    for (auto &p : got)
    {
      c.cls(statusName(p.status));
      Bytes &all = pieces[p.stream];
      all.insert(all.end(), p.b.begin(), p.b.end());
      if (p.status == LM_COMPLETE) ++complete;
      if (p.status >= LM_SEQUENCE) ++errors;
      if (p.status == LM_COMPLETE || p.status >= LM_SEQUENCE)
      {
        if (p.status == LM_COMPLETE)
        {
          // Built from what was sent on this stream
          bool exact = false, sameLen = false;
          for (auto &b : sent[p.stream])
          {
            if (b == all) exact = true;
            if (b.size() == all.size()) sameLen = true;
          }
          if (!sameLen) c.fail("%s: stream %d complete with %zu bytes, no message of this length was sent", what, p.stream, all.size());
          if (!exact) c.cls("mixture of messages that the sequence numbers cannot tell");
          else c.count("complete and exact");
        }
        all.clear();
      }
    }
  };
  auto frame = [&](const Msg &f) {
    got.clear();
    node.post(f, 77);
    node.pump();
    node.takeMsgs();
    std::vector<Model> next;
    std::vector<Piece> exp;
    if (f.op() != 0xE9) next = models;
    else
      for (auto &m : models)
        for (auto &r : feed(v, m, f))
        {
          exp = r.second;
          if (r.second == got) next.push_back(r.first);
        }
    if (f.op() != 0xE9 && !got.empty()) c.fail("%s: handler gets %s", f.str().c_str(), str(got).c_str());
    if (next.empty()) c.fail("%s: handler gets %s, expected %s", f.str().c_str(), str(got).c_str(), str(exp).c_str());
    models = next;
    if (models.size() > 1) open = true;
    note(f.str().c_str());
    c.count("fragments received");
  };
  auto poll = [&] {
    got.clear();
    v.ex ? ext.process() : base.process();
    node.pump();
    std::vector<Model> next;
    std::vector<Piece> exp;
    for (Model m : models)
    {
      exp.clear();
      for (auto it = m.rx.begin(); it != m.rx.end();)
        if (world.ms - it->second.last >= v.timeout)
        {
          exp.push_back({it->first, LM_TIMEOUT, it->second.b});
          it = m.rx.erase(it);
        }
        else ++it;
      // the order of streams that time out together is open
      auto g = got;
      auto less = [](const Piece &a, const Piece &b) { return a.stream < b.stream; };
      std::stable_sort(g.begin(), g.end(), less);
      if (exp == g) next.push_back(m);
    }
    if (next.empty()) c.fail("process(): handler gets %s, expected %s", str(got).c_str(), str(exp).c_str());
    models = next;
    note("process()");
    if (!node.takeMsgs().empty()) c.fail("%s", "the receiver sends something");
  };
  auto pass = [&](unsigned long ms) {
    world.ms += ms;
    c.log("%lu ms pass", ms);
    if (c.chance(90)) poll();
  };

  int n = 0, faults = 0;
  while (c.more(n, 8, 30))
  {
    STEP(c);
    // Some messages, interleaved, with faults
    int k = c.weighted({6, 3, 1}) + 1;
    std::vector<std::vector<Msg>> parts;
    std::set<int> streams;
    for (int i = 0; i < k; ++i)
    {
      int s = c.chance(80) ? ids[c.range(0, nids - 1)] : c.u8();
      if (!streams.insert(s).second) continue;
      unsigned len = c.weighted({6, 3, 1}) == 0 ? c.range(1, 30) : c.chance(70) ? std::max(1l, std::min(1275l, (long) v.buflen * c.range(1, 2) + c.range(-1, 1))) : c.edgy(1, 1275);
      // the sequence number wraps after 255 fragments
      bool wraps = c.chance(1);
      if (wraps) c.cls("more than 255 fragments");
      if (wraps) len = c.chance(80) ? c.range(1276, 1400) : c.range(2540, 2600);
      Bytes b = lmContent(c, len);
      sent[s].push_back(b);
      unsigned crc = c.chance(60) ? lmCrc(b) : 0;
      std::vector<Msg> p{lmHeader(s, len, crc)};
      for (unsigned f = 1; f <= lmFragments(len); ++f) p.push_back(lmFragment(s, b, f));
      c.log("message of %u bytes on stream %d%s", len, s, v.subs.count(s) ? "" : ", not subscribed");
      // faults
      int nf = c.weighted({4, 4, 2, 1});
      while (nf--)
      {
        if (p.empty()) break;
        int at = c.chance(20) ? 0 : c.range(0, p.size() - 1);
        if (wraps && c.chance(70)) at = std::min<long>(c.range(252, 260), p.size() - 1);
        ++faults;
        switch (c.range(0, 6))
        {
          case 0: c.log("fragment %d is lost", at); p.erase(p.begin() + at); break;
          case 1: c.log("fragment %d is repeated", at); p.insert(p.begin() + at, p[at]); break;
          case 2:
          {
            int b2 = c.range(0, p.size() - 1);
            c.log("fragments %d and %d are swapped", at, b2);
            std::swap(p[at], p[b2]);
            break;
          }
          case 3: c.log("cut off before %d", at); p.resize(at); break;
          case 4:
          {
            int cnt = std::min<long>(c.range(1, 5), p.size() - at);
            c.log("%d fragments from %d are lost", cnt, at);
            p.erase(p.begin() + at, p.begin() + at + cnt);
            break;
          }
          case 6: // what the checksum is for
          {
            int b2 = c.range(3, 7);
            c.log("a byte of fragment %d is altered", at);
            if (p[at][2] != 0) p[at].d[b2] ^= 1 + c.range(0, 254);
            c.cls("altered content");
            break;
          }
          case 5:
          {
            int to = wraps && c.chance(70) ? std::min<long>(c.range(252, 260), p.size() - 1) : c.range(0, p.size() - 1);
            c.log("fragment %d arrives again at %d", at, to);
            p.insert(p.begin() + to, p[at]);
            break;
          }
        }
      }
      parts.push_back(p);
    }
    bool pauses = c.chance(30), noise = c.chance(30);
    std::vector<size_t> pos(parts.size(), 0);
    for (;;)
    {
      std::vector<int> left;
      for (size_t i = 0; i < parts.size(); ++i) if (pos[i] < parts[i].size()) left.push_back(i);
      if (left.empty()) break;
      int i = left.size() == 1 ? left[0] : c.pickv(left);
      frame(parts[i][pos[i]++]);
      if (pauses && c.chance(8)) pass(c.chance(50) ? std::max(0l, (long) v.timeout + c.range(-1, 1)) : c.range(0, v.timeout));
      else if (c.chance(10)) pass(c.range(0, std::min(20u, v.timeout / 10)));
      if (noise && c.chance(10))
        switch (c.range(0, 3))
        {
          case 0: frame(mkev(K::ACON, c.range(0, 65535), 1)); break;
          case 1: // any fragment; the continuation of a stream that is being received would be a forgery
          {
            int s = c.u8();
            if (streams.count(s) || models[0].rx.count(s)) break;
            Bytes b(5, 0x5A);
            frame(lmFragment(s, b, 1));
            break;
          }
          case 2: if (!streams.empty()) frame(lmHeader(*streams.begin(), 7, 0, (int) c.range(1, 255))); break;
          case 3: frame(Msg{K::QNN}); break;
        }
    }
    if (c.chance(50)) pass(c.chance(50) ? v.timeout : c.range(0, v.timeout));
  }
  // The next undamaged message after everything has been reported is received.
  pass(v.timeout);
  poll();
  poll();
  long was = complete;
  int s = ids[0];
  Bytes b = lmContent(c, c.range(1, v.ex ? v.buflen : 300));
  if (b.size() > 1275) b.resize(1275);
  sent[s].push_back(b);
  c.log("at last an undamaged message of %zu bytes", b.size());
  frame(lmHeader(s, b.size(), lmCrc(b)));
  for (unsigned f = 1; f <= lmFragments(b.size()); ++f) frame(lmFragment(s, b, f));
  if (complete != was + 1) c.fail("%s", "the undamaged message at the end is not received");
  c.nontrivial(errors > 0 && faults > 0);
  if (complete > 1) c.cls("complete messages between the faults");
  if (open) c.cls("header in the middle of a message");
}

pbt::Property pbt::property = {
  "C26", "Damaged long messages are never reported as complete",
  "Sequences of long messages of 1 to 1275 bytes, some longer so that the sequence number wraps, on subscribed and other streams, interleaved, made by an independent encoder, to which faults are "
  "applied: loss of one or several fragments, repetition, swapping, alteration, cutting off, late arrival, pauses around the timeout, foreign fragments, headers "
  "that are not data messages. Both services with random buffers, contexts and timeouts. Every call of the handler is compared with a model of the "
  "protocol; at the end an undamaged message has to arrive. Non-trivial: there were faults and at least one error was reported.",
  "exploration", 40000, 1500000, run, {}, {"Fragments are 8 bytes long", "a header that arrives where the fragment with the wrapped sequence number 0 is due counts as this fragment"}};
