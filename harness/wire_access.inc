// generated by lib/mkschema.py
static QJsonArray dumpMsg(const Scalars &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.aI32());
    put(r, 2, m.aI64());
    put(r, 3, m.aU32());
    put(r, 4, m.aU64());
    put(r, 5, m.aS32());
    put(r, 6, m.aS64());
    put(r, 7, m.aF32());
    put(r, 8, m.aF64());
    put(r, 9, m.aSf32());
    put(r, 10, m.aSf64());
    put(r, 11, m.aFlt());
    put(r, 12, m.aDbl());
    put(r, 13, m.aBool());
    put(r, 14, m.aStr());
    put(r, 15, m.aByt());
    put(r, 16, m.aEn());
    return r;
}
static void loadMsg(Scalars &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.aI32())> v{}; load(v, p.at(1)); m.setAI32(v); break; }
    case 2: { std::decay_t<decltype(m.aI64())> v{}; load(v, p.at(1)); m.setAI64(v); break; }
    case 3: { std::decay_t<decltype(m.aU32())> v{}; load(v, p.at(1)); m.setAU32(v); break; }
    case 4: { std::decay_t<decltype(m.aU64())> v{}; load(v, p.at(1)); m.setAU64(v); break; }
    case 5: { std::decay_t<decltype(m.aS32())> v{}; load(v, p.at(1)); m.setAS32(v); break; }
    case 6: { std::decay_t<decltype(m.aS64())> v{}; load(v, p.at(1)); m.setAS64(v); break; }
    case 7: { std::decay_t<decltype(m.aF32())> v{}; load(v, p.at(1)); m.setAF32(v); break; }
    case 8: { std::decay_t<decltype(m.aF64())> v{}; load(v, p.at(1)); m.setAF64(v); break; }
    case 9: { std::decay_t<decltype(m.aSf32())> v{}; load(v, p.at(1)); m.setASf32(v); break; }
    case 10: { std::decay_t<decltype(m.aSf64())> v{}; load(v, p.at(1)); m.setASf64(v); break; }
    case 11: { std::decay_t<decltype(m.aFlt())> v{}; load(v, p.at(1)); m.setAFlt(v); break; }
    case 12: { std::decay_t<decltype(m.aDbl())> v{}; load(v, p.at(1)); m.setADbl(v); break; }
    case 13: { std::decay_t<decltype(m.aBool())> v{}; load(v, p.at(1)); m.setABool(v); break; }
    case 14: { std::decay_t<decltype(m.aStr())> v{}; load(v, p.at(1)); m.setAStr(v); break; }
    case 15: { std::decay_t<decltype(m.aByt())> v{}; load(v, p.at(1)); m.setAByt(v); break; }
    case 16: { std::decay_t<decltype(m.aEn())> v{}; load(v, p.at(1)); m.setAEn(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Repeats &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.rI32());
    put(r, 2, m.rI64());
    put(r, 3, m.rU32());
    put(r, 4, m.rU64());
    put(r, 5, m.rS32());
    put(r, 6, m.rS64());
    put(r, 7, m.rF32());
    put(r, 8, m.rF64());
    put(r, 9, m.rSf32());
    put(r, 10, m.rSf64());
    put(r, 11, m.rFlt());
    put(r, 12, m.rDbl());
    put(r, 13, m.rBool());
    put(r, 14, m.rStr());
    put(r, 15, m.rByt());
    put(r, 16, m.rEn());
    put(r, 17, m.rMsg());
    return r;
}
static void loadMsg(Repeats &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.rI32())> v{}; load(v, p.at(1)); m.setRI32(v); break; }
    case 2: { std::decay_t<decltype(m.rI64())> v{}; load(v, p.at(1)); m.setRI64(v); break; }
    case 3: { std::decay_t<decltype(m.rU32())> v{}; load(v, p.at(1)); m.setRU32(v); break; }
    case 4: { std::decay_t<decltype(m.rU64())> v{}; load(v, p.at(1)); m.setRU64(v); break; }
    case 5: { std::decay_t<decltype(m.rS32())> v{}; load(v, p.at(1)); m.setRS32(v); break; }
    case 6: { std::decay_t<decltype(m.rS64())> v{}; load(v, p.at(1)); m.setRS64(v); break; }
    case 7: { std::decay_t<decltype(m.rF32())> v{}; load(v, p.at(1)); m.setRF32(v); break; }
    case 8: { std::decay_t<decltype(m.rF64())> v{}; load(v, p.at(1)); m.setRF64(v); break; }
    case 9: { std::decay_t<decltype(m.rSf32())> v{}; load(v, p.at(1)); m.setRSf32(v); break; }
    case 10: { std::decay_t<decltype(m.rSf64())> v{}; load(v, p.at(1)); m.setRSf64(v); break; }
    case 11: { std::decay_t<decltype(m.rFlt())> v{}; load(v, p.at(1)); m.setRFlt(v); break; }
    case 12: { std::decay_t<decltype(m.rDbl())> v{}; load(v, p.at(1)); m.setRDbl(v); break; }
    case 13: { std::decay_t<decltype(m.rBool())> v{}; load(v, p.at(1)); m.setRBool(v); break; }
    case 14: { std::decay_t<decltype(m.rStr())> v{}; load(v, p.at(1)); m.setRStr(v); break; }
    case 15: { std::decay_t<decltype(m.rByt())> v{}; load(v, p.at(1)); m.setRByt(v); break; }
    case 16: { std::decay_t<decltype(m.rEn())> v{}; load(v, p.at(1)); m.setREn(v); break; }
    case 17: { std::decay_t<decltype(m.rMsg())> v{}; load(v, p.at(1)); m.setRMsg(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Leaf &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.v());
    put(r, 2, m.s());
    put(r, 3, m.l());
    return r;
}
static void loadMsg(Leaf &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.v())> v{}; load(v, p.at(1)); m.setV(v); break; }
    case 2: { std::decay_t<decltype(m.s())> v{}; load(v, p.at(1)); m.setS(v); break; }
    case 3: { std::decay_t<decltype(m.l())> v{}; load(v, p.at(1)); m.setL(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Outer &m) {
    QJsonArray r; Q_UNUSED(m)
    if (const auto *p = m.property("x").value<Leaf *>()) put(r, 1, *p);
    if (const auto *p = m.property("y").value<Mid *>()) put(r, 2, *p);
    put(r, 3, m.z());
    return r;
}
static void loadMsg(Outer &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.x())> v{}; load(v, p.at(1)); m.setX(v); break; }
    case 2: { std::decay_t<decltype(m.y())> v{}; load(v, p.at(1)); m.setY(v); break; }
    case 3: { std::decay_t<decltype(m.z())> v{}; load(v, p.at(1)); m.setZ(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Mid &m) {
    QJsonArray r; Q_UNUSED(m)
    if (const auto *p = m.property("p").value<Leaf *>()) put(r, 1, *p);
    put(r, 2, m.q());
    put(r, 3, m.m());
    put(r, 4, m.n());
    return r;
}
static void loadMsg(Mid &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.p())> v{}; load(v, p.at(1)); m.setP(v); break; }
    case 2: { std::decay_t<decltype(m.q())> v{}; load(v, p.at(1)); m.setQ(v); break; }
    case 3: { std::decay_t<decltype(m.m())> v{}; load(v, p.at(1)); m.setM(v); break; }
    case 4: { std::decay_t<decltype(m.n())> v{}; load(v, p.at(1)); m.setN(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Maps &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.mI32());
    put(r, 2, m.mI64());
    put(r, 3, m.mU32());
    put(r, 4, m.mU64());
    put(r, 5, m.mS32());
    put(r, 6, m.mS64());
    put(r, 7, m.mF32());
    put(r, 8, m.mF64());
    put(r, 9, m.mSf32());
    put(r, 10, m.mSf64());
    put(r, 11, m.mBool());
    put(r, 12, m.mStr());
    put(r, 13, m.mEn());
    put(r, 14, m.mFlt());
    put(r, 15, m.mSs());
    put(r, 16, m.mSu());
    put(r, 17, m.mSs32());
    put(r, 18, m.mSb());
    put(r, 19, m.mSi());
    return r;
}
static void loadMsg(Maps &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.mI32())> v{}; load(v, p.at(1)); m.setMI32(v); break; }
    case 2: { std::decay_t<decltype(m.mI64())> v{}; load(v, p.at(1)); m.setMI64(v); break; }
    case 3: { std::decay_t<decltype(m.mU32())> v{}; load(v, p.at(1)); m.setMU32(v); break; }
    case 4: { std::decay_t<decltype(m.mU64())> v{}; load(v, p.at(1)); m.setMU64(v); break; }
    case 5: { std::decay_t<decltype(m.mS32())> v{}; load(v, p.at(1)); m.setMS32(v); break; }
    case 6: { std::decay_t<decltype(m.mS64())> v{}; load(v, p.at(1)); m.setMS64(v); break; }
    case 7: { std::decay_t<decltype(m.mF32())> v{}; load(v, p.at(1)); m.setMF32(v); break; }
    case 8: { std::decay_t<decltype(m.mF64())> v{}; load(v, p.at(1)); m.setMF64(v); break; }
    case 9: { std::decay_t<decltype(m.mSf32())> v{}; load(v, p.at(1)); m.setMSf32(v); break; }
    case 10: { std::decay_t<decltype(m.mSf64())> v{}; load(v, p.at(1)); m.setMSf64(v); break; }
    case 11: { std::decay_t<decltype(m.mBool())> v{}; load(v, p.at(1)); m.setMBool(v); break; }
    case 12: { std::decay_t<decltype(m.mStr())> v{}; load(v, p.at(1)); m.setMStr(v); break; }
    case 13: { std::decay_t<decltype(m.mEn())> v{}; load(v, p.at(1)); m.setMEn(v); break; }
    case 14: { std::decay_t<decltype(m.mFlt())> v{}; load(v, p.at(1)); m.setMFlt(v); break; }
    case 15: { std::decay_t<decltype(m.mSs())> v{}; load(v, p.at(1)); m.setMSs(v); break; }
    case 16: { std::decay_t<decltype(m.mSu())> v{}; load(v, p.at(1)); m.setMSu(v); break; }
    case 17: { std::decay_t<decltype(m.mSs32())> v{}; load(v, p.at(1)); m.setMSs32(v); break; }
    case 18: { std::decay_t<decltype(m.mSb())> v{}; load(v, p.at(1)); m.setMSb(v); break; }
    case 19: { std::decay_t<decltype(m.mSi())> v{}; load(v, p.at(1)); m.setMSi(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Numbers &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.n1());
    put(r, 15, m.n15());
    put(r, 16, m.n16());
    put(r, 2047, m.n2047());
    put(r, 2048, m.n2048());
    put(r, 262143, m.n262143());
    put(r, 262144, m.n262144());
    put(r, 33554431, m.n33554431());
    put(r, 33554432, m.n33554432());
    put(r, 536870911, m.nmax());
    return r;
}
static void loadMsg(Numbers &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.n1())> v{}; load(v, p.at(1)); m.setN1(v); break; }
    case 15: { std::decay_t<decltype(m.n15())> v{}; load(v, p.at(1)); m.setN15(v); break; }
    case 16: { std::decay_t<decltype(m.n16())> v{}; load(v, p.at(1)); m.setN16(v); break; }
    case 2047: { std::decay_t<decltype(m.n2047())> v{}; load(v, p.at(1)); m.setN2047(v); break; }
    case 2048: { std::decay_t<decltype(m.n2048())> v{}; load(v, p.at(1)); m.setN2048(v); break; }
    case 262143: { std::decay_t<decltype(m.n262143())> v{}; load(v, p.at(1)); m.setN262143(v); break; }
    case 262144: { std::decay_t<decltype(m.n262144())> v{}; load(v, p.at(1)); m.setN262144(v); break; }
    case 33554431: { std::decay_t<decltype(m.n33554431())> v{}; load(v, p.at(1)); m.setN33554431(v); break; }
    case 33554432: { std::decay_t<decltype(m.n33554432())> v{}; load(v, p.at(1)); m.setN33554432(v); break; }
    case 536870911: { std::decay_t<decltype(m.nmax())> v{}; load(v, p.at(1)); m.setNmax(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Node &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.v());
    put(r, 3, m.kids());
    put(r, 4, m.named());
    return r;
}
static void loadMsg(Node &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.v())> v{}; load(v, p.at(1)); m.setV(v); break; }
    case 3: { std::decay_t<decltype(m.kids())> v{}; load(v, p.at(1)); m.setKids(v); break; }
    case 4: { std::decay_t<decltype(m.named())> v{}; load(v, p.at(1)); m.setNamed(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Nothing &m) {
    QJsonArray r; Q_UNUSED(m)
    return r;
}
static void loadMsg(Nothing &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Kinds &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.t());
    put(r, 2, m.l());
    put(r, 3, m.m());
    if (const auto *p = m.property("d").value<Kinds::Deep *>()) put(r, 4, *p);
    put(r, 5, m.c());
    put(r, 6, m.o());
    put(r, 7, m.dl());
    return r;
}
static void loadMsg(Kinds &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.t())> v{}; load(v, p.at(1)); m.setT(v); break; }
    case 2: { std::decay_t<decltype(m.l())> v{}; load(v, p.at(1)); m.setL(v); break; }
    case 3: { std::decay_t<decltype(m.m())> v{}; load(v, p.at(1)); m.setM(v); break; }
    case 4: { std::decay_t<decltype(m.d())> v{}; load(v, p.at(1)); m.setD(v); break; }
    case 5: { std::decay_t<decltype(m.c())> v{}; load(v, p.at(1)); m.setC(v); break; }
    case 6: { std::decay_t<decltype(m.o())> v{}; load(v, p.at(1)); m.setO(v); break; }
    case 7: { std::decay_t<decltype(m.dl())> v{}; load(v, p.at(1)); m.setDl(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Others &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.t());
    put(r, 2, m.l());
    put(r, 3, m.m());
    return r;
}
static void loadMsg(Others &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.t())> v{}; load(v, p.at(1)); m.setT(v); break; }
    case 2: { std::decay_t<decltype(m.l())> v{}; load(v, p.at(1)); m.setL(v); break; }
    case 3: { std::decay_t<decltype(m.m())> v{}; load(v, p.at(1)); m.setM(v); break; }
    default: qFatal("unknown field"); } }
}
static QJsonArray dumpMsg(const Kinds::Deep &m) {
    QJsonArray r; Q_UNUSED(m)
    put(r, 1, m.t());
    put(r, 2, m.l());
    put(r, 3, m.m());
    put(r, 4, m.v());
    return r;
}
static void loadMsg(Kinds::Deep &m, const QJsonArray &a) {
    Q_UNUSED(m)
    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {
    case 1: { std::decay_t<decltype(m.t())> v{}; load(v, p.at(1)); m.setT(v); break; }
    case 2: { std::decay_t<decltype(m.l())> v{}; load(v, p.at(1)); m.setL(v); break; }
    case 3: { std::decay_t<decltype(m.m())> v{}; load(v, p.at(1)); m.setM(v); break; }
    case 4: { std::decay_t<decltype(m.v())> v{}; load(v, p.at(1)); m.setV(v); break; }
    default: qFatal("unknown field"); } }
}
