// Controller <-> CAN bus: no message is lost, duplicated, reordered or altered on its way in or out.
#include "rig.hpp"

static CANFrame randomFrame(Case &c, unsigned own, bool clashes)
{
  unsigned from = c.range(0, 126);
  if (from >= own) ++from; // this node's own CANID starts an enumeration
  if (clashes && c.chance(20)) from = own;
  int len = c.weighted({6, 1}) == 0 ? c.range(1, 8) : 0;
  Msg m;
  for (int i = 0; i < len; ++i) m.d.push_back(c.sbyte());
  return dataFrame(from, m, c.range(0, 15));
}

// A service that answers some messages, as the first one to see them.
struct Answering : SpyService
{
  std::function<void(const Msg &)> answer;
  void process(const VLCB::Action *a) override
  {
    SpyService::process(a);
    if (a && a->actionType == VLCB::ACT_MESSAGE_IN && answer) answer(Msg(std::vector<uint8_t>(a->vlcbMessage.data, a->vlcbMessage.data + a->vlcbMessage.len)));
  }
};

static void run(Case &c)
{
  world.reset();
  unsigned own = c.range(1, 127);
  unsigned nn = c.edgy(1, 65535);
  RamStorage st(512);
  storeIdentity(st, K::MODE_NORMAL, own, nn);
  NodeConf nc;
  nc.services = S_CAN | S_SPY;
  Node node(nc, &st);
  Answering first;
  if (c.chance(50)) node.extraFront.push_back(&first);
  bool useFirst = !node.extraFront.empty();
  node.boot();
  node.takeFrames();
  node.spy->seen.clear();
  first.seen.clear();
  c.log("CANID %u NN %u", own, nn);

  Msgs in, out;           // what was put in on either side
  unsigned rtrs = 0, exts = 0;
  // What is waiting: o a message to be sent, i a received one, a an indication of activity. A pass takes one action,
  // and puts up to two for a received frame and one for a sent one.
  std::deque<char> queue;
  size_t peak = 0;
  // Another node may use the same CANID. Its messages are messages too, but the first starts an enumeration, which
  // does not end here as the time stands still; empty frames are answers to it from then on.
  bool clashes = c.chance(30), enumerating = false;
  bool interleaved = false;
  bool answers = false;
  int n = 0;
  auto pass = [&] {
    char front = 0;
    if (!queue.empty())
    {
      front = queue.front();
      queue.pop_front();
    }
    bool data = !node.can->rx.empty() && !node.can->rx.front().ext && !node.can->rx.front().rtr;
    size_t before = out.size();
    node.loop();
    // the order of these does not matter for the room there is
    for (size_t i = before; i < out.size(); ++i) queue.push_back('o');
    if (data) queue.insert(queue.end(), {'a', 'i'});
    if (front == 'o') queue.push_back('a');
    peak = std::max(peak, queue.size());
  };
  auto drain = [&] {
    node.pump();
    queue.clear();
  };
  auto room = [&](size_t k) {
    if (queue.size() + 2 * node.can->rx.size() + k > 30) drain();
  };
  auto onSend = [&](const Msg &m, bool ok) {
    out.push_back(m);
    queue.push_back('o');
    peak = std::max(peak, queue.size());
    if (!ok) c.fail("send: the controller refused a message");
  };
  int every = c.pick<int>({0, 0, 1, 2, 3}), count = 0;
  bool answered = false;
  if (useFirst && every)
    first.answer = [&](const Msg &m) {
      if (++count % every) return;
      Msg r = m;
      if (r.d.empty()) r = mk(K::WRACK, nn);
      VlcbMessage v;
      memset(&v, 0xA5, sizeof v);
      v.len = r.size();
      memcpy(v.data, r.d.data(), r.size());
      out.push_back(r);
      answered = true;
      if (!node.controller->sendMessage(&v)) c.fail("send: the controller refused a message");
    };
  while (c.more(n, 20, 80))
  {
    STEP(c);
    switch (c.weighted({8, 6, 6, 2, 2, 3, 2, 2}))
    {
      case 0:
      {
        CANFrame f = randomFrame(c, own, clashes);
        // Messages to this node that its CAN service would act on are not part of this check.
        if (f.len >= 1 && (f.data[0] == K::ENUM || f.data[0] == K::CANID)) f.data[0] = K::ACON;
        room(2);
        c.log("frame %s", frameStr(f).c_str());
        node.can->rx.push_back(f);
        Msg m;
        m.d.assign(f.data, f.data + f.len);
        if (f.len > 0 && (f.id & 0x7F) == own) enumerating = true;
        if (f.len == 0 && enumerating)
          answers = true;
        else
          in.push_back(m);
        if (!out.empty()) interleaved = true;
        break;
      }
      case 1:
      {
        VlcbMessage v;
        memset(&v, 0xA5, sizeof v);
        v.len = c.range(1, 8);
        Msg m;
        for (int i = 0; i < v.len; ++i) m.d.push_back(v.data[i] = c.sbyte());
        room(1);
        c.log("send %s", m.str().c_str());
        onSend(m, node.controller->sendMessage(&v));
        break;
      }
      case 2:
      {
        uint8_t b[5];
        int k = c.range(0, 5);
        VlcbOpCodes opc = (VlcbOpCodes) c.u8();
        for (int i = 0; i < k; ++i) b[i] = c.sbyte();
        Msg m{(int) opc, hi(nn), lo(nn)};
        m.d.insert(m.d.end(), b, b + k);
        room(1);
        c.log("send with NN %s", m.str().c_str());
        VLCB::Controller &t = *node.controller;
        onSend(m, k == 0 ? t.sendMessageWithNN(opc) : k == 1 ? t.sendMessageWithNN(opc, b[0]) : k == 2 ? t.sendMessageWithNN(opc, b[0], b[1]) :
               k == 3 ? t.sendMessageWithNN(opc, b[0], b[1], b[2]) : k == 4 ? t.sendMessageWithNN(opc, b[0], b[1], b[2], b[3]) :
               t.sendMessageWithNN(opc, b[0], b[1], b[2], b[3], b[4]));
        break;
      }
      case 3:
      {
        room(1);
        VLCB::Controller &t = *node.controller;
        uint8_t a = c.u8(), b = c.u8(), d = c.u8();
        switch (c.range(0, 2))
        {
          case 0: c.log("sendWRACK"); onSend(mk(K::WRACK, nn), t.sendWRACK()); break;
          case 1: c.log("sendCMDERR %u", a); onSend(mk(K::CMDERR, nn, {a}), t.sendCMDERR(a)); break;
          case 2: c.log("sendGRSP %u %u %u", a, b, d); t.sendGRSP((VlcbOpCodes) a, b, d); onSend(mk(K::GRSP, nn, {a, b, d}), true); break;
        }
        break;
      }
      case 4:
      {
        CANFrame f = randomFrame(c, own, clashes);
        room(2);
        if (c.chance(50))
        {
          f.ext = true;
          f.id = (uint32_t) c.draw(0x1FFFFFFF);
          if (c.chance(30)) f.rtr = true;
          ++exts;
        }
        else
        {
          f.rtr = true;
          if (c.chance(70)) f.len = 0;
          ++rtrs;
        }
        c.log("frame %s", frameStr(f).c_str());
        node.can->rx.push_back(f);
        break;
      }
      case 5:
      {
        int k = c.range(1, 6);
        c.log("%d passes", k);
        for (int i = 0; i < k; ++i) pass();
        break;
      }
      case 6:
        drain();
        break;
      case 7:
      {
        // Fill the queue, or nearly.
        int left = 30 - (int) (queue.size() + 2 * node.can->rx.size());
        int k = left - (c.chance(60) ? 0 : c.range(0, 6));
        c.log("send %d messages", k);
        bool received = node.can->rx.empty() && c.chance(30);
        for (int i = 0; i < k; ++i)
        {
          VLCB::Action a;
          memset(&a, 0, sizeof a);
          Msg m{K::ACON, c.u8(), i, lo(nn), (int) out.size()};
          a.actionType = received ? VLCB::ACT_MESSAGE_IN : VLCB::ACT_MESSAGE_OUT;
          a.vlcbMessage.len = m.size();
          memcpy(a.vlcbMessage.data, m.d.data(), m.size());
          node.controller->putAction(a);
          (received ? in : out).push_back(m);
          queue.push_back(received ? 'i' : 'o');
        }
        peak = std::max(peak, queue.size());
        break;
      }
    }
  }
  drain();

  Msgs bus;
  unsigned empties = 0, asked = 0;
  for (auto &f : node.takeFrames())
  {
    if (f.ext) c.fail("bus: an extended frame was sent: %s", frameStr(f).c_str());
    if (f.id != ((0xBu << 7) | own)) c.fail("bus: frame with identifier %X, expected priority 1011 and CANID %u: %X", f.id, own, (0xBu << 7) | own);
    if (f.rtr)
    {
      if (++asked > enumerating) c.fail("bus: %s", enumerating ? "a second RTR frame was sent in an enumeration" : "an RTR frame was sent though nothing asked for an enumeration");
      if (f.len) c.fail("bus: an RTR frame of %u bytes was sent", f.len);
      continue;
    }
    if (f.len == 0) { ++empties; continue; }
    if (f.len > 8) c.fail("bus: a frame with %u data bytes was sent", f.len);
    Msg m;
    m.d.assign(f.data, f.data + f.len);
    bus.push_back(m);
  }
  if (empties != rtrs) c.fail("rtr: %u RTR frames received, %u empty frames sent in answer", rtrs, empties);
  if (bus != out) c.fail("bus: messages on the bus %s, messages sent %s", str(bus).c_str(), str(out).c_str());
  for (int k = useFirst ? 0 : 1; k < 2; ++k)
  {
    SpyService &s = k == 0 ? first : *node.spy;
    Msgs seenIn, seenOut;
    for (auto &x : s.seen)
    {
      if (x.type == VLCB::ACT_MESSAGE_IN) seenIn.push_back(x.msg);
      if (x.type == VLCB::ACT_MESSAGE_OUT) seenOut.push_back(x.msg);
    }
    if (seenIn != in) c.fail("services: %s service was given incoming %s, received were %s", k ? "last" : "first", str(seenIn).c_str(), str(in).c_str());
    if (seenOut != out) c.fail("services: %s service was given outgoing %s, sent were %s", k ? "last" : "first", str(seenOut).c_str(), str(out).c_str());
  }
  if (rtrs) c.cls("RTR frame answered");
  if (enumerating && !asked) c.fail("bus: no RTR frame was sent when another node used the same CANID");
  if (enumerating) c.cls("message from the same CANID");
  if (answers) c.cls("answers to an enumeration");
  if (exts) c.cls("extended frame ignored");
  if (interleaved) c.cls("both directions");
  if (answered) c.cls("answered by a service");
  if (peak == 30) c.cls("queue filled to the last place");
  c.nontrivial(in.size() >= 3 && out.size() >= 3);
}

pbt::Property pbt::property = {
  "C02", "Messages pass between services and CAN bus unaltered, once, in order",
  "Random interleavings of received frames (data, RTR, extended), sent messages (all send functions, 0-5 extra bytes) and main loop passes, messages from another node with the same CANID, a service that answers messages, the queue filled up to the last place but never beyond; sequences seen by the first and last service and on the bus are compared with what was put in. Non-trivial: at least 3 messages each way.",
  "exploration", 350000, 6000000, run,
  {},
  {"not more than 30 actions outstanding, what the queue holds", "frames have 0-8 data bytes"},
};
