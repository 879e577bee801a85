// One long message at a time, both ways between two nodes.
#include "longmsg.hpp"

static std::vector<Piece> *inbox[2];
static void handler0(void *p, unsigned len, uint8_t s, uint8_t st) { inbox[0]->push_back({s, st, Bytes((uint8_t *) p, (uint8_t *) p + len)}); }
static void handler1(void *p, unsigned len, uint8_t s, uint8_t st) { inbox[1]->push_back({s, st, Bytes((uint8_t *) p, (uint8_t *) p + len)}); }

struct End
{
  RamStorage st;
  std::unique_ptr<VLCB::LongMessageService> lm;
  std::unique_ptr<Node> node;
  std::unique_ptr<uint8_t[]> buf, ids;
  unsigned buflen = 0, nids = 0;
  std::set<int> subs;
  unsigned delay = 20, timeout = 5000;
  std::vector<Piece> got;
  // the message being sent
  std::unique_ptr<uint8_t[]> user;
  Bytes msg;
  int stream = 0;
  bool sending = false;
  unsigned nextFrag = 0; // 0: header
  bool everData = false;
  bool polled = false;
  unsigned long lastData = 0, started = 0, firstPoll = 0;
  // the message being received by this end
  Bytes partial;
  long delivered = 0;
  int clutter = 0; // other messages that wait to be sent
};

static void run(Case &c)
{
  world.reset();
  world.ms = c.weighted({6, 2, 2}) == 0 ? 0 : c.chance(50) ? c.edgy(0, 4294000000l) : (unsigned long) -1 - c.range(0, 4000);
  End e[2];
  for (int i = 0; i < 2; ++i)
  {
    End &x = e[i];
    inbox[i] = &x.got;
    NodeConf nc;
    nc.services = S_MNS | S_CAN;
    storeIdentity(x.st, K::MODE_NORMAL, 5 + i, 256 + i);
    x.lm.reset(new VLCB::LongMessageService);
    x.node.reset(new Node(nc, &x.st));
    x.node->extra.push_back(x.lm.get());
    x.node->boot();
    x.node->takeFrames();
    x.buflen = c.weighted({4, 3, 1}) == 0 ? c.range(1, 40) : c.chance(70) ? c.edgy(1, 300) : c.edgy(1, 2000);
    x.buf.reset(new uint8_t[x.buflen]);
    x.nids = c.range(1, 5);
    x.ids.reset(new uint8_t[x.nids]);
    for (unsigned k = 0; k < x.nids; ++k)
    {
      x.ids[k] = c.sbyte();
      x.subs.insert(x.ids[k]);
    }
    x.lm->subscribe(x.ids.get(), x.nids, x.buf.get(), x.buflen, i ? handler1 : handler0);
    if (c.chance(60))
    {
      x.delay = c.edgy(0, 255);
      x.lm->setDelay(x.delay);
    }
    c.log("end %d: buffer %u, delay %u", i, x.buflen, x.delay);
  }
  int maxStep = c.pick<int>({25, 5, 1, 300});
  for (int i = 0; i < 2; ++i)
    if (c.chance(50))
    {
      e[i].timeout = c.edgy(600, 60000);
      e[i].lm->setTimeout(e[i].timeout);
    }

  bool busy = c.chance(20);
  // Everything that one end has put on the bus.
  auto carry = [&](int i) {
    End &x = e[i], &y = e[!i];
    x.node->pump();
    for (auto &m : x.node->takeMsgs())
    {
      if (m.op() == K::ACOF && m.nn() == 0x7777 && x.clutter > 0)
      {
        --x.clutter;
        continue;
      }
      if (m.op() != 0xE9) c.fail("end %d sends %s", i, m.str().c_str());
      if (!x.sending) c.fail("end %d sends the fragment %s of no message", i, m.str().c_str());
      if (x.nextFrag == 0)
      {
        Msg want = lmHeader(x.stream, x.msg.size());
        if (m != want) c.fail("header %s, expected %s", m.str().c_str(), want.str().c_str());
      }
      else
      {
        unsigned used = std::min<size_t>(5, x.msg.size() - (x.nextFrag - 1) * 5);
        Msg want = lmFragment(x.stream, x.msg, x.nextFrag);
        if (m.size() != 8 || !std::equal(m.d.begin(), m.d.begin() + 3 + used, want.d.begin()))
          c.fail("fragment %u is %s, expected %s", x.nextFrag, m.str().c_str(), want.str().c_str());
        if (x.everData && world.ms - x.lastData < x.delay) c.fail("fragment %u after %lu ms, delay is %u", x.nextFrag, world.ms - x.lastData, x.delay);
        x.everData = true;
        x.lastData = world.ms;
      }
      ++x.nextFrag;
      c.count("fragments sent");
      y.got.clear();
      y.node->post(m, 5 + i);
      y.node->pump();
      // The receiver
      bool last = x.nextFrag > lmFragments(x.msg.size());
      std::vector<Piece> want;
      if (y.subs.count(x.stream) && x.nextFrag > 1)
      {
        for (size_t k = (x.nextFrag - 2) * 5; k < x.msg.size() && k < (x.nextFrag - 1) * 5; ++k)
        {
          y.partial.push_back(x.msg[k]);
          if (k + 1 == x.msg.size() || y.partial.size() == y.buflen)
          {
            want.push_back({x.stream, k + 1 == x.msg.size() ? LM_COMPLETE : LM_INCOMPLETE, y.partial});
            y.partial.clear();
          }
        }
      }
      if (y.got != want) c.fail("message of %zu bytes, buffer %u, fragment %u: handler gets %s, expected %s", x.msg.size(), y.buflen, x.nextFrag - 1, str(y.got).c_str(), str(want).c_str());
      y.got.clear();
      if (last)
      {
        x.sending = false;
        if (y.subs.count(x.stream))
        {
          ++y.delivered;
          c.nontrivial(x.msg.size() > 5);
          c.count("messages delivered");
          if (x.msg.size() > y.buflen) c.cls("more than the buffer");
          if (x.msg.size() > 1275) c.cls("sequence number wraps");
          if (x.msg.size() == y.buflen) c.cls("exactly the buffer");
        }
        else c.cls("not subscribed");
      }
    }
  };
  auto work = [&](int i) {
    End &x = e[i];
    unsigned before = x.nextFrag;
    bool was = x.sending;
    if (was && !x.polled)
    {
      x.polled = true;
      x.firstPoll = world.ms;
    }
    if (busy && c.chance(10))
    {
      // other services have messages waiting
      for (int k = c.range(1, 10); k > 0; --k)
      {
        VLCB::VlcbMessage vm{5, {K::ACOF, 0x77, 0x77, 0, (uint8_t) k}};
        x.node->controller->sendMessage(&vm);
        ++x.clutter;
      }
      c.cls("other messages waiting to be sent");
    }
    x.lm->process();
    carry(i);
    if (was && x.nextFrag == before && (x.everData ? world.ms - x.lastData >= x.delay : world.ms - x.firstPoll >= x.delay))
      c.fail("end %d does not send fragment %u of the message of %zu bytes, delay %u has passed", i, x.nextFrag, x.msg.size(), x.delay);
    if (x.lm->is_sending() != x.sending) c.fail("end %d: is_sending() is %d after %u of %u fragments", i, (int) x.lm->is_sending(), x.nextFrag - 1, lmFragments(x.msg.size()));
    if (!x.got.empty()) c.fail("end %d: handler gets %s out of nothing", i, str(x.got).c_str());
    if (was && !x.sending) x.user.reset(); // the caller may reuse it now
  };

  int n = 0, msgs = 0;
  bool big = false;
  while (c.more(n, 6, 25))
  {
    STEP(c);
    int i = c.range(0, 1);
    End &x = e[i], &y = e[!i];
    // start a message, or try to
    unsigned len;
    switch (c.weighted({5, 4, 3, 2, 1}))
    {
      case 0: len = c.range(1, 12); break;
      case 1: len = c.edgy(1, 100); break;
      case 2: len = std::max(1l, (long) y.buflen * c.range(1, 3) + c.range(-1, 1)); break;
      case 3: len = 1275 + c.range(-6, 6) + (c.chance(10) ? 1280 : 0); break;
      default: len = c.chance(6) ? c.edgy(3000, 65535) : c.range(100, 3000); break;
    }
    if (len > 10000)
    {
      if (big) len = 10;
      big = true;
    }
    Bytes m = lmContent(c, len);
    int stream = c.chance(85) ? y.ids[c.range(0, y.nids - 1)] : c.u8();
    bool ok;
    if (x.sending)
    {
      std::unique_ptr<uint8_t[]> tmp(new uint8_t[len]);
      std::copy(m.begin(), m.end(), tmp.get());
      ok = x.lm->sendLongMessage(tmp.get(), len, stream);
      if (ok) c.fail("%s", "a second message is accepted while one is being sent");
      c.cls("second message refused");
      carry(i);
    }
    else
    {
      c.log("end %d sends %u bytes on stream %d%s", i, len, stream, y.subs.count(stream) ? "" : ", not subscribed");
      x.user.reset(new uint8_t[len]);
      std::copy(m.begin(), m.end(), x.user.get());
      x.msg = m;
      x.stream = stream;
      x.sending = true;
      x.nextFrag = 0;
      x.polled = false;
      x.started = world.ms;
      ++msgs;
      ok = x.lm->sendLongMessage(x.user.get(), len, stream);
      if (!ok) c.fail("message of %u bytes is refused", len);
      carry(i);
      if (x.nextFrag != 1) c.fail("%u frames sent at once", x.nextFrag);
    }
    // go on for a while, or to the end
    long ticks = c.chance(60) ? 100000 : c.range(0, 20);
    bool noise = c.chance(40);
    while (ticks-- > 0 && (e[0].sending || e[1].sending))
    {
      long lim = maxStep;
      if (e[0].sending && e[1].sending && maxStep == 300) lim = 100;
      world.ms += len > 3000 ? lim : c.range(0, lim);
      int which = e[0].sending && e[1].sending ? c.range(0, 2) : 2;
      for (End &z : e) // no receive timeout
        if (world.ms - z.started >= 250 && (z.nextFrag < 2 || world.ms - z.lastData >= 250)) which = 2;
      if (which != 1) work(0);
      if (which != 0) work(1);
      if (noise && c.chance(15))
      {
        int k = c.range(0, 1);
        End &z = e[k], &w = e[!k];
        bool receiving = w.sending && z.subs.count(w.stream);
        int s = c.u8();
        Msg nm;
        switch (c.weighted({3, 2, 1, 1}))
        {
          case 0: // another stream
            if (receiving ? s == w.stream : z.subs.count(s) != 0) continue;
            nm = Msg{0xE9, s, c.chance(50) ? 0 : lo(w.nextFrag), c.u8(), c.u8(), 0, 0, 0};
            c.cls("another stream in between");
            break;
          case 1: nm = mkev(K::ACON + c.range(0, 1), c.range(0, 65535), 1); break;
          case 2: nm = Msg{K::QNN}; break;
          case 3: // not a data message
            if (receiving) continue;
            nm = lmHeader(z.ids[0], 10, 0, (int) c.range(1, 255));
            c.cls("header with flags");
            break;
        }
        z.node->post(nm, 77);
        z.node->pump();
        for (auto &r : z.node->takeMsgs())
          if (r.op() != K::PNN) c.fail("%s is answered by %s", nm.str().c_str(), r.str().c_str());
        if (!z.got.empty()) c.fail("%s: handler gets %s", nm.str().c_str(), str(z.got).c_str());
      }
    }
  }
  c.count("messages sent", msgs);
}

pbt::Property pbt::property = {
  "C24", "Long messages arrive complete and unaltered",
  "Two nodes with the simple long message service and random receive buffers, stream ids, delays and polling intervals send each other messages of "
  "random length (1 to 65535, mostly short, with weight on multiples of the buffer size and of the 8-bit sequence number's period) and content. "
  "Each frame on the bus is compared with an independent fragmentation of the message, its time with the configured delay, each call of the receiver's "
  "handler with the piece of the message that is due. Foreign fragments, other messages and attempts to send a second message happen in between. "
  "Non-trivial: a message of more than one fragment was delivered.",
  "exploration", 12000, 300000, run, {}, {"Fragments of foreign streams are 8 bytes long", "Messages of length 0 are outside the property"}};
