// Concurrent long messages.
#include "longmsg.hpp"
#include "heap.hpp"

static std::vector<Piece> *inbox[2];
static void handler0(void *p, unsigned len, uint8_t s, uint8_t st) { inbox[0]->push_back({s, st, Bytes((uint8_t *) p, (uint8_t *) p + len)}); }
static void handler1(void *p, unsigned len, uint8_t s, uint8_t st) { inbox[1]->push_back({s, st, Bytes((uint8_t *) p, (uint8_t *) p + len)}); }

struct Sending
{
  Bytes msg;
  unsigned next = 0;       // next fragment, 0: header
  bool everData = false;
  unsigned long lastData = 0, started = 0;
  long polls = 0;          // calls of process() since the last fragment
};

struct Receiving
{
  Bytes b;
  unsigned len = 0, crc = 0;
};

struct End
{
  RamStorage st;
  std::unique_ptr<VLCB::LongMessageServiceEx> lm;
  std::unique_ptr<Node> node;
  std::unique_ptr<uint8_t[]> ids;
  unsigned nids = 0;
  std::set<int> subs;
  unsigned buflen = 64, nrx = 4, ntx = 4, delay = 20;
  bool crc = false;
  std::vector<Piece> got;
  std::map<int, Sending> tx;
  std::map<int, Receiving> rx;
};

// Long receptions with headers of other streams at each fragment, in particular where the sequence number is 0 again.
static void wrapped(Case &c)
{
  RamStorage st;
  std::vector<Piece> got;
  inbox[0] = &got;
  NodeConf nc;
  nc.services = S_MNS | S_CAN;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  VLCB::LongMessageServiceEx lm;
  Node node(nc, &st);
  node.extra.push_back(&lm);
  node.boot();
  node.takeFrames();
  unsigned nrx = c.range(2, 6), buflen = c.range(2600, 4000);
  lm.allocateContexts(nrx, buflen, 1);
  uint8_t ids[8];
  for (int k = 0; k < 8; ++k) ids[k] = 17 * k + c.range(0, 16);
  lm.subscribe(ids, 8, handler0);
  lm.use_crc(c.chance(50));
  lm.setTimeout(60000);
  struct In { Bytes b; unsigned next; };
  std::map<int, In> rx;
  int n = 0, headers = 0;
  c.log("%u receive contexts, long messages from another encoder", nrx);
  auto feed = [&](const Msg &m, const std::vector<Piece> &exp, const char *what, unsigned frag) {
    got.clear();
    node.post(m, 77);
    node.pump();
    if (got != exp) c.fail("stream %d, %s %u: handler gets %s, expected %s", m[1], what, frag, str(got).c_str(), str(exp).c_str());
  };
  auto begin = [&](unsigned len) {
    int s;
    do s = ids[c.range(0, 7)]; while (rx.count(s));
    In in{lmContent(c, len), 1};
    c.log("message of %u bytes on stream %d", len, s);
    feed(lmHeader(s, len, c.chance(50) ? lmCrc(in.b) : 0), {}, "header", 0);
    rx[s] = in;
  };
  auto next = [&](int s) {
    In &in = rx[s];
    bool last = in.next == lmFragments(in.b.size());
    Msg m = lmFragment(s, in.b, in.next);
    std::vector<Piece> exp;
    if (last) exp.push_back({s, LM_COMPLETE, in.b});
    unsigned k = in.next++;
    Bytes keep = in.b;
    if (last) rx.erase(s);
    feed(m, exp, "fragment", k);
  };
  while (c.more(n, 6, 20))
  {
    STEP(c);
    // Bring a long one to where its sequence number is about to wrap, then let others begin.
    while (rx.size() < nrx && (rx.empty() || c.chance(60))) begin(c.chance(50) ? c.range(1276, 2600) : c.range(1, 60));
    int s = std::next(rx.begin(), c.range(0, rx.size() - 1))->first;
    unsigned to = c.chance(80) ? 256 * c.range(1, 2) + c.range(-1, 1) : c.range(1, 520);
    while (rx.count(s) && rx[s].next < to) next(s);
    if (rx.size() < nrx)
    {
      ++headers;
      begin(c.range(1, 30));
    }
    int k = c.range(0, 12);
    while (k-- > 0 && !rx.empty()) next(std::next(rx.begin(), c.range(0, rx.size() - 1))->first);
  }
  while (!rx.empty()) next(rx.begin()->first);
  c.cls("long messages, others begin where the sequence number wraps");
  c.nontrivial(headers > 0);
}

// Many messages with little memory, sometimes none at all.
static void memory(Case &c)
{
  struct Stop { ~Stop() { heap.stop(); } } stop;
  RamStorage st;
  std::vector<Piece> got;
  inbox[0] = &got;
  NodeConf nc;
  nc.services = S_MNS | S_CAN;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  VLCB::LongMessageServiceEx lm;
  Node node(nc, &st);
  node.extra.push_back(&lm);
  node.boot();
  node.takeFrames();
  unsigned ntx = c.range(1, 4), nrx = c.range(1, 4), buflen = c.range(1, 100), maxLen = c.range(1, 120);
  bool crc = c.chance(30);
  heap.start();
  if (c.chance(30))
  {
    // The memory is not enough, the application tries again with less
    heap.failAt = c.range(0, 12);
    bool ok = lm.allocateContexts(nrx + 1, buflen * 10, ntx + 1);
    c.log("allocateContexts() returns %d, %ld failures", (int) ok, heap.failures);
    if (ok == (heap.failures > 0)) c.fail("allocateContexts() returns %d, %ld allocations failed", (int) ok, heap.failures);
    if (!ok) c.cls("no memory for the contexts");
    heap.start();
  }
  if (!lm.allocateContexts(nrx, buflen, ntx)) c.fail("%s", "allocateContexts() fails");
  uint8_t id = 7;
  lm.subscribe(&id, 1, handler0);
  lm.use_crc(crc);
  unsigned delay = c.range(0, 30);
  lm.setDelay(delay);
  // Twice what the messages in progress can need, and some more
  heap.limit = heap.used + 2 * ntx * (maxLen + 16) + 64;
  c.log("%u send contexts, messages of up to %u bytes, memory for %ld bytes", ntx, maxLen, heap.limit - heap.used);
  std::map<int, Sending> tx;
  long count = 0, failed = 0;
  auto frames = [&](int expect) {
    int k = 0;
    node.pump();
    for (auto &m : node.takeMsgs())
    {
      ++k;
      if (m.op() != 0xE9 || !tx.count(m[1])) c.fail("message %ld: sends %s", count, m.str().c_str());
      Sending &t = tx[m[1]];
      Msg want = t.next == 0 ? lmHeader(m[1], t.msg.size(), crc ? lmCrc(t.msg) : 0) : lmFragment(m[1], t.msg, t.next);
      unsigned used = t.next == 0 ? 8 : 3 + std::min<size_t>(5, t.msg.size() - (t.next - 1) * 5);
      if (m.size() != 8 || !std::equal(m.d.begin(), m.d.begin() + used, want.d.begin()))
        c.fail("message %ld: fragment %u is %s, expected %s", count, t.next, m.str().c_str(), want.str().c_str());
      if (++t.next > lmFragments(t.msg.size())) tx.erase(m[1]);
    }
    if (expect >= 0 && k != expect) c.fail("message %ld: %d frames sent at once, expected %d", count, k, expect);
    if (lm.is_sending() != tx.size()) c.fail("message %ld: is_sending() is %d, %zu streams are not complete", count, (int) lm.is_sending(), tx.size());
  };
  int n = 0;
  while (c.more(n, 12, 40))
  {
    STEP(c);
    int k = c.chance(50) ? 1 : c.range(2, 20);
    bool none = c.chance(25), drain = c.chance(60);
    c.log("%d messages%s", k, none ? ", no memory" : "");
    while (k-- > 0)
    {
      int stream = c.range(0, 5);
      Bytes b = lmContent(c, c.chance(40) ? maxLen : c.range(1, maxLen));
      bool want = !tx.count(stream) && tx.size() < ntx;
      heap.failing = none;
      long f0 = heap.failures;
      bool ok = lm.sendLongMessage(b.data(), b.size(), stream);
      bool noMem = heap.failures > f0;
      heap.failing = false;
      ++count;
      if (noMem && !none) c.fail("message %ld of %zu bytes: no memory, %zu messages are in progress and %ld bytes are in use", count, b.size(), tx.size(), heap.used);
      if (want && noMem) { ++failed; want = ok; }
      if (ok != want) c.fail("message %ld: sendLongMessage() returns %d, %zu streams are being sent", count, (int) ok, tx.size());
      if (ok) tx[stream].msg = b;
      frames(ok ? 1 : 0);
      for (int i = drain ? 10000 : c.range(0, 30); i-- > 0 && !tx.empty();)
      {
        world.ms += delay + 1;
        lm.process();
        frames(-1);
      }
      if (drain && !tx.empty()) c.fail("message %ld: sending does not end", count);
    }
  }
  for (int i = 0; i < 100000 && !tx.empty(); ++i)
  {
    world.ms += delay + 1;
    lm.process();
    frames(-1);
  }
  if (!tx.empty()) c.fail("%s", "sending does not end");
  c.cls("little memory");
  c.count("allocations refused", failed);
  c.nontrivial(count > 10);
}

static void run(Case &c)
{
  world.reset();
  if (c.chance(6)) return memory(c);
  if (c.chance(8)) return wrapped(c);
  world.ms = c.weighted({6, 2, 2}) == 0 ? 1000 : c.chance(50) ? c.edgy(0, 4294000000l) : (unsigned long) -1 - c.range(0, 4000);
  End e[2];
  for (int i = 0; i < 2; ++i)
  {
    End &x = e[i];
    inbox[i] = &x.got;
    NodeConf nc;
    nc.services = S_MNS | S_CAN;
    storeIdentity(x.st, K::MODE_NORMAL, 5 + i, 256 + i);
    x.lm.reset(new VLCB::LongMessageServiceEx);
    x.node.reset(new Node(nc, &x.st));
    x.node->extra.push_back(x.lm.get());
    x.node->boot();
    x.node->takeFrames();
    bool ok;
    if (c.chance(20)) ok = x.lm->allocateContexts();
    else
    {
      x.nrx = c.chance(4) ? 0 : c.range(1, 6);
      x.ntx = c.chance(4) ? 0 : c.range(1, 6);
      x.buflen = c.weighted({4, 3, 1}) == 0 ? c.range(1, 80) : c.chance(70) ? c.edgy(1, 400) : c.range(1275, 4000);
      ok = x.lm->allocateContexts(x.nrx, x.buflen, x.ntx);
    }
    if (!ok) c.fail("%s", "allocateContexts() fails");
    x.nids = c.range(1, 10);
    x.ids.reset(new uint8_t[x.nids]);
    for (unsigned k = 0; k < x.nids; ++k)
    {
      x.ids[k] = c.sbyte();
      x.subs.insert(x.ids[k]);
    }
    x.lm->subscribe(x.ids.get(), x.nids, i ? handler1 : handler0);
    x.crc = c.chance(50);
    if (x.crc || c.chance(30)) x.lm->use_crc(x.crc);
    if (c.chance(60))
    {
      x.delay = c.edgy(0, 255);
      x.lm->setDelay(x.delay);
    }
    x.lm->setTimeout(60000);
    c.log("end %d: %u receive contexts of %u bytes, %u send contexts, delay %u%s", i, x.nrx, x.buflen, x.ntx, x.delay, x.crc ? ", CRC" : "");
  }
  int maxStep = c.pick<int>({25, 5, 1, 300});
  maxStep = std::max<int>(maxStep, std::max(e[0].delay, e[1].delay) / 5);
  int damage = c.chance(30) ? 5 : 0;
  int both = 0;

  auto carry = [&](int i) {
    End &x = e[i], &y = e[!i];
    x.node->pump();
    int frames = 0;
    for (auto &m : x.node->takeMsgs())
    {
      ++frames;
      int s = m[1];
      if (m.op() != 0xE9 || !x.tx.count(s)) c.fail("end %d sends %s", i, m.str().c_str());
      Sending &t = x.tx[s];
      unsigned crc = x.crc ? lmCrc(t.msg) : 0;
      Msg want = t.next == 0 ? lmHeader(s, t.msg.size(), crc) : lmFragment(s, t.msg, t.next);
      unsigned used = t.next == 0 ? 8 : 3 + std::min<size_t>(5, t.msg.size() - (t.next - 1) * 5);
      if (m.size() != 8 || !std::equal(m.d.begin(), m.d.begin() + used, want.d.begin()))
        c.fail("fragment %u of stream %d is %s, expected %s", t.next, s, m.str().c_str(), want.str().c_str());
      if (t.next > 0)
      {
        if (t.everData && world.ms - t.lastData < x.delay) c.fail("fragment %u of stream %d after %lu ms, delay is %u", t.next, s, world.ms - t.lastData, x.delay);
        t.everData = true;
        t.lastData = world.ms;
      }
      t.polls = 0;
      unsigned idx = t.next++;
      if (t.next > lmFragments(t.msg.size())) x.tx.erase(s);
      c.count("fragments sent");

      // On the way
      Msg d = m;
      if (damage && (idx == 0 ? (crc && c.chance(3)) : c.chance(damage)))
      {
        int pos = idx == 0 ? c.range(5, 6) : c.range(3, used - 1);
        d.d[pos] ^= 1 + c.range(0, 254);
        c.cls("damaged on the way");
      }
      // The receiver
      std::vector<Piece> exp;
      if (y.subs.count(s))
      {
        if (idx == 0)
        {
          if (y.rx.size() < y.nrx)
          {
            Receiving r;
            r.len = d[3] << 8 | d[4];
            r.crc = d[5] << 8 | d[6];
            y.rx[s] = r;
            if (y.rx.size() > 1) c.cls("concurrent reception");
          }
          else c.cls("no free receive context");
        }
        else if (y.rx.count(s))
        {
          Receiving &r = y.rx[s];
          for (int k = 3; k < 8; ++k)
          {
            r.b.push_back(d[k]);
            if (r.b.size() == r.len)
            {
              bool bad = y.crc && r.crc && r.crc != lmCrc(r.b);
              exp.push_back({s, bad ? LM_CRC : LM_COMPLETE, r.b});
              if (bad) c.cls("CRC error");
              else if (y.crc && r.crc) c.cls("CRC verified");
              c.count("messages delivered", !bad);
              if (r.len > 1275) c.cls("sequence number wraps");
              if (!bad && y.rx.size() > 1) c.nontrivial();
              y.rx.erase(s);
              break;
            }
            if (r.b.size() == y.buflen)
            {
              exp.push_back({s, LM_TRUNCATED, r.b});
              c.cls("truncated");
              y.rx.erase(s);
              break;
            }
          }
        }
      }
      y.got.clear();
      y.node->post(d, 5 + i);
      y.node->pump();
      if (y.got != exp) c.fail("stream %d, fragment %u: handler gets %s, expected %s", s, idx, str(y.got).c_str(), str(exp).c_str());
      y.got.clear();
    }
    return frames;
  };
  auto work = [&](int i) {
    End &x = e[i];
    for (auto &t : x.tx) // when it could be sent; the clock has just wrapped: the first fragment may wait
      if (t.second.everData ? world.ms - t.second.lastData >= x.delay : world.ms - t.second.started >= x.delay && world.ms >= 256) ++t.second.polls;
      else t.second.polls = 0;
    x.lm->process();
    carry(i);
    for (auto &t : x.tx)
      if (t.second.polls > (long) x.ntx)
        c.fail("end %d does not go on with fragment %u of stream %d", i, t.second.next, t.first);
    if (x.lm->is_sending() != x.tx.size()) c.fail("end %d: is_sending() is %d, %zu streams are not complete", i, (int) x.lm->is_sending(), x.tx.size());
    if (!x.got.empty()) c.fail("end %d: handler gets %s out of nothing", i, str(x.got).c_str());
  };

  int n = 0, msgs = 0;
  while (c.more(n, 12, 40))
  {
    STEP(c);
    int i = c.range(0, 1);
    End &x = e[i], &y = e[!i];
    unsigned len;
    switch (c.weighted({5, 4, 4, 2, 1}))
    {
      case 0: len = c.range(1, 12); break;
      case 1: len = c.edgy(1, 100); break;
      case 2: len = std::max(1l, (long) y.buflen + c.range(-6, 6)); break;
      case 3: len = 1275 + c.range(-6, 6) + (c.chance(10) ? 1280 : 0); break;
      default: len = c.range(100, 3000); break;
    }
    // The sequence numbers of a long message repeat: only when it can be received
    if (len > 1275 && (len > y.buflen || y.nrx < x.ntx)) len = 1 + len % 1275;
    int stream = c.chance(85) ? y.ids[c.range(0, y.nids - 1)] : c.u8();
    Bytes m = lmContent(c, len);
    bool busy = x.tx.count(stream) != 0;
    bool want = !busy && x.tx.size() < x.ntx;
    c.log("end %d sends %u bytes on stream %d%s%s", i, len, stream, y.subs.count(stream) ? "" : ", not subscribed", want ? "" : busy ? ", stream is busy" : ", no context");
    auto before = x.tx;
    if (want)
    {
      Sending t;
      t.msg = m;
      t.started = world.ms;
      x.tx[stream] = t;
      ++msgs;
      if (x.tx.size() > 1) ++both;
    }
    else c.cls(busy ? "refused: stream is busy" : "refused: no free send context");
    {
      std::unique_ptr<uint8_t[]> user(new uint8_t[len]);
      std::copy(m.begin(), m.end(), user.get());
      bool ok = x.lm->sendLongMessage(user.get(), len, stream);
      if (ok != want) c.fail("sendLongMessage() returns %d, %zu streams are being sent, stream %s", (int) ok, before.size(), busy ? "busy" : "free");
      std::fill(user.get(), user.get() + len, 0xEE);
    }
    int frames = carry(i);
    if (frames != (want ? 1 : 0)) c.fail("%d frames sent at once", frames);
    if (x.lm->is_sending() != x.tx.size()) c.fail("end %d: is_sending() is %d, %zu streams are not complete", i, (int) x.lm->is_sending(), x.tx.size());
    long ticks = c.chance(15) ? 200000 : c.range(0, 20);
    while (ticks-- > 0 && !(e[0].tx.empty() && e[1].tx.empty()))
    {
      unsigned todo = 0;
      for (auto &z : e) for (auto &t : z.tx) todo += t.second.msg.size();
      world.ms += todo > 300 ? std::max<int>(maxStep, std::max(e[0].delay, e[1].delay)) / (int) std::max<size_t>(1, std::min(e[0].ntx, e[1].ntx)) + c.range(0, 3) : c.range(0, maxStep);
      int which = c.range(0, 2);
      if (which != 1) work(0);
      if (which != 0) work(1);
    }
  }
  // All that is left
  for (long k = 0; !(e[0].tx.empty() && e[1].tx.empty()); ++k)
  {
    world.ms += maxStep;
    work(0);
    work(1);
    if (k > 1000000) c.fail("%s", "sending does not end");
  }
  for (auto &x : e)
    if (!x.rx.empty()) c.fail("harness: stream %d is still being received", x.rx.begin()->first);
  if (both) c.cls("concurrent sending");
  c.count("messages sent", msgs);
}

pbt::Property pbt::property = {
  "C25", "Concurrent long messages do not disturb each other",
  "Two nodes with the extended long message service and random numbers of contexts, buffer sizes, checksum options, delays and polling intervals send each "
  "other messages of random length and content, any number at the same time; some fragments are altered on the way. Each frame on the bus is compared "
  "with an independent fragmentation and CRC-16 of the data at the time of the call and with the delay of its stream, each call of a handler with a model "
  "of the receive contexts, is_sending() with the number of unfinished streams. In some cases the library's heap is limited to little more than the messages in progress need, or refuses everything for a while. Another encoder sends messages of up to 2600 bytes to which others are added where the sequence number wraps. Non-trivial: a message was delivered while another was being received, or one began during a long one, or more than ten were sent with little memory.",
  "exploration", 25000, 600000, run, {}, {"Messages that can be truncated or for which there may be no context have at most 255 fragments", "Two senders do not use the same stream at the same time"}};
