// C20: one Modbus register: what is written to the device and what is read from it.
#include "modbus.inc"
// A device with W words of registers from address Base on.
struct Device: Modbus::IModbusTraits
{
    uint16_t Mem[4];
    uint32_t Base = 0;
    unsigned W = 0;
    uint8_t Slave = 0, Reading = 3;
    bool Coil = false;
    int Calls = 0, Refused = -1;
    size_t Expected = 0;
    Modbus::TReadResult Transaction(TPort&, uint8_t slave, const std::vector<uint8_t>& q, size_t expected, const ms& rt, const ms& ft, bool) override
    {
        VF_ASSERT(slave == Slave, "the device is addressed");
        VF_ASSERT(rt == ms(300) && ft == ms(20), "timeouts of the device");
        Modbus::TReadResult r;
        r.SlaveId = slave;
        VF_ASSERT(q.size() >= 5, "request");
        if (q.size() < 5)
            return r;
        uint32_t a = q[1] << 8 | q[2], n = q[3] << 8 | q[4];
        if (Refused == Calls++) {
            r.Pdu = {uint8_t(q[0] | 0x80), 2};
            return r;
        }
        uint32_t at = a - Base;
        VF_ASSERT(at < W, "only words of the register are accessed");
        if (at >= W)
            return r;
        if (q[0] == 6 || q[0] == 5) {
            VF_ASSERT(q.size() == 5, "single write");
            VF_ASSERT((q[0] == 5) == Coil, "function of the register type");
            VF_ASSERT(q[0] == 6 || n == 0xFF00 || n == 0, "a coil is on or off");
            Mem[at] = Coil ? n >> 15 : n;
            r.Pdu = q;
        } else if (q[0] == 16) {
            VF_ASSERT(!Coil, "function of the register type");
            VF_ASSERT(n > 0 && at + n <= W, "only words of the register are written");
            VF_ASSERT(q.size() == 6 + 2 * n && q[5] == 2 * n, "multiple write");
            if (at + n > W || q.size() != 6 + 2 * n)
                return r;
            for (uint32_t i = 0; i < n; ++i)
                Mem[at + i] = q[6 + 2 * i] << 8 | q[7 + 2 * i];
            r.Pdu = {q[0], q[1], q[2], q[3], q[4]};
        } else {
            VF_ASSERT(q[0] == Reading, "function of the register type");
            VF_ASSERT(n == W && at == 0 && q.size() == 5, "the words of the register are read");
            r.Pdu = {q[0], uint8_t(q[0] < 3 ? 1 : 2 * W)};
            if (q[0] < 3)
                r.Pdu.push_back(uint8_t(Mem[0]));
            else
                for (uint32_t i = 0; i < W; ++i) {
                    r.Pdu.push_back(Mem[i] >> 8);
                    r.Pdu.push_back(uint8_t(Mem[i]));
                }
        }
        VF_ASSERT(expected == r.Pdu.size(), "size of the expected answer");
        return r;
    }
};
static const RegisterFormat FORMATS[] = {U8, U16, S24, U32, U64};
struct Reg
{
    int Type;
    unsigned Bytes, Words, Offset, Width;
    EWordOrder WO;
    EByteOrder BO;
    uint16_t Addr;
    PRegisterConfig C;
};
static uint16_t Swap(uint16_t v, EByteOrder o) { return o == EByteOrder::LittleEndian ? v << 8 | v >> 8 : v; }
static uint64_t Mask(unsigned w) { return w >= 64 ? ~uint64_t(0) : (uint64_t(1) << w) - 1; }
static void Make(Reg& r, int type, bool partial, unsigned bytes = 0)
{
    r.Type = type;
    unsigned f = __vf_split(__vf_size(4));
    if (partial)
        VF_REQUIRES(bytes ? f == (bytes == 2 ? 1 : 4) : f == 1 || f == 4);
    static const unsigned BYTES[] = {1, 2, 3, 4, 8};
    r.Bytes = BYTES[f];
    r.WO = vf_bool() ? EWordOrder::LittleEndian : EWordOrder::BigEndian;
    r.BO = vf_bool() ? EByteOrder::LittleEndian : EByteOrder::BigEndian;
    r.Offset = 0;
    r.Width = r.Bytes * 8;
    unsigned width = 0;
    if (partial) {
        r.Offset = __vf_size(r.Bytes * 8 - 1);
        r.Width = width = 1 + __vf_size(63);
        VF_REQUIRES(r.Offset + r.Width <= 64);
    }
    unsigned bits = std::max(r.Bytes * 8, r.Offset + r.Width);
    r.Words = (bits + 15) / 16;
    r.Addr = __vf_u16();
    VF_REQUIRES(r.Addr <= 0xFFFF - 4);
    TRegisterDesc d;
    d.Address = std::make_shared<TUint32RegisterAddress>(r.Addr);
    d.DataOffset = r.Offset;
    d.DataWidth = width;
    r.C = std::make_shared<TRegisterConfig>(type, d, FORMATS[f], 1.0, 0.0, 0.0, TRegisterConfig::TSporadicMode::DISABLED, false, "r", r.WO, r.BO);
    VF_ASSERT(r.C->Get16BitWidth() == r.Words, "words of a register");
}
// the number in the words of the device
static uint64_t Number(const uint16_t* m, const Reg& r)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < r.Words; ++i)
        v = v << 16 | Swap(m[r.WO == EWordOrder::LittleEndian && (r.Type != Modbus::REG_HOLDING_SINGLE) ? r.Words - 1 - i : i], r.BO);
    return v;
}
static void Write(int type, bool partial, unsigned bytes = 0)
{
    Reg r;
    Make(r, type, partial, bytes);
    r.Words = __vf_split(r.Words);
    if (type == Modbus::REG_HOLDING_SINGLE)
        VF_REQUIRES(r.WO == EWordOrder::BigEndian);
    int shift = __vf_u8() % 2 ? 0 : 1000;
    VF_REQUIRES(r.Addr <= 0xFFFF - 1004);
    Device d;
    d.Slave = __vf_u8();
    d.Base = r.Addr + shift;
    d.W = r.Words;
    if (vf_bool())
        d.Refused = type == Modbus::REG_HOLDING_SINGLE ? __vf_size(3) : 0;
    uint16_t old[4];
    Modbus::TRegisterCache cache, before;
    for (unsigned i = 0; i < r.Words; ++i) {
        old[i] = d.Mem[i] = __vf_u16();
        cache[r.Addr + i] = Swap(old[i], r.BO);
    }
    before = cache;
    uint64_t v = __vf_u64();
    Port p;
    bool refused = false;
    us delay(__vf_u16());
    try {
        Modbus::WriteRegister(d, p, d.Slave, *r.C, TRegisterValue{v}, cache, delay, ms(300), ms(20), shift);
    } catch (const TSerialDevicePermanentRegisterException&) {
        refused = true;
    }
    VF_ASSERT(refused == (d.Refused >= 0 && d.Refused < d.Calls), "a refused request is reported");
    VF_ASSERT(p.Pauses == d.Calls && p.Pause == delay, "the delay of the device precedes every request");
    unsigned j = __vf_index() % 4;
    if (refused) {
        if (j < r.Words)
            VF_ASSERT(cache.count(r.Addr + j) == 1 && cache[r.Addr + j] == before[r.Addr + j], "what is known of the device is unchanged if it refuses");
        __vf_cover("refused");
        return;
    }
    uint64_t n = Number(d.Mem, r), o = Number(old, r), mask = Mask(r.Width) << r.Offset;
    VF_ASSERT((n & mask) == (v << r.Offset & mask), "the bits of the register have the value");
    VF_ASSERT((n & ~mask) == (o & ~mask), "all other bits keep theirs");
    if (j < r.Words)
        VF_ASSERT(cache.count(r.Addr + j) == 1 && cache[r.Addr + j] == Swap(d.Mem[j], r.BO), "what is known of the device agrees with it");
    VF_ASSERT(cache.size() == before.size(), "nothing else becomes known");
    __vf_cover("written");
}
VF_HARNESS(write_holding) { Write(Modbus::REG_HOLDING, false); }
VF_HARNESS(write_multi) { Write(Modbus::REG_HOLDING_MULTI, false); }
VF_HARNESS(write_single) { Write(Modbus::REG_HOLDING_SINGLE, false); }
VF_HARNESS(write_holding_bits2) { Write(Modbus::REG_HOLDING, true, 2); }
VF_HARNESS(write_holding_bits8) { Write(Modbus::REG_HOLDING, true, 8); }
VF_HARNESS(write_multi_bits2) { Write(Modbus::REG_HOLDING_MULTI, true, 2); }
VF_HARNESS(write_multi_bits8) { Write(Modbus::REG_HOLDING_MULTI, true, 8); }
VF_HARNESS(write_single_bits2) { Write(Modbus::REG_HOLDING_SINGLE, true, 2); }
VF_HARNESS(write_single_bits8) { Write(Modbus::REG_HOLDING_SINGLE, true, 8); }
// write-only registers: nothing is known of them
VF_HARNESS(write_only)
{
    int type = __vf_split(__vf_size(2));
    type = type == 0 ? Modbus::REG_HOLDING : type == 1 ? Modbus::REG_HOLDING_MULTI : Modbus::REG_HOLDING_SINGLE;
    unsigned f = __vf_split(__vf_size(4));
    static const unsigned BYTES[] = {1, 2, 3, 4, 8};
    Reg r;
    r.Type = type;
    r.Width = BYTES[f] * 8;
    r.Words = (r.Width + 15) / 16;
    r.WO = vf_bool() ? EWordOrder::LittleEndian : EWordOrder::BigEndian;
    r.BO = vf_bool() ? EByteOrder::LittleEndian : EByteOrder::BigEndian;
    if (type == Modbus::REG_HOLDING_SINGLE)
        VF_REQUIRES(r.WO == EWordOrder::BigEndian);
    r.Addr = __vf_u16();
    VF_REQUIRES(r.Addr <= 0xFFFF - 4);
    TRegisterDesc d;
    d.WriteAddress = std::make_shared<TUint32RegisterAddress>(r.Addr);
    TRegisterConfig c(type, d, FORMATS[f], 1.0, 0.0, 0.0, TRegisterConfig::TSporadicMode::DISABLED, false, "r", r.WO, r.BO);
    Device dev;
    dev.Slave = __vf_u8();
    dev.Base = r.Addr;
    dev.W = r.Words;
    for (auto& m: dev.Mem)
        m = 0;
    Modbus::TRegisterCache cache;
    uint64_t v = __vf_u64() & Mask(r.Width);
    Port p;
    Modbus::WriteRegister(dev, p, dev.Slave, c, TRegisterValue{v}, cache, us(0), ms(300), ms(20));
    VF_ASSERT(Number(dev.Mem, r) == v, "the register has the value");
    VF_ASSERT(cache.empty(), "nothing becomes known");
    __vf_cover("written");
}
VF_HARNESS(write_coil)
{
    uint16_t a = __vf_u16();
    TRegisterDesc d;
    d.Address = std::make_shared<TUint32RegisterAddress>(a);
    TRegisterConfig c(Modbus::REG_COIL, d, U8, 1.0, 0.0, 0.0, TRegisterConfig::TSporadicMode::DISABLED, false, "c", EWordOrder::BigEndian, EByteOrder::BigEndian);
    Device dev;
    dev.Slave = __vf_u8();
    dev.Base = a;
    dev.W = 1;
    dev.Coil = true;
    dev.Mem[0] = 7;
    Modbus::TRegisterCache cache;
    uint64_t v = __vf_u64();
    Port p;
    Modbus::WriteRegister(dev, p, dev.Slave, c, TRegisterValue{v}, cache, us(0), ms(300), ms(20));
    VF_ASSERT(dev.Calls == 1 && dev.Mem[0] == (v != 0), "the coil is on exactly for values other than zero");
    VF_ASSERT(cache.empty(), "coils are not holding registers");
    __vf_cover("written");
}
// texts: one or two characters in a word
template<bool two> static void Text()
{
    Device dev;
    dev.Slave = __vf_u8();
    unsigned chars = __vf_split(1 + __vf_size(3));
    Reg r;
    r.Type = Modbus::REG_HOLDING_MULTI;
    r.Words = chars;
    r.WO = vf_bool() ? EWordOrder::LittleEndian : EWordOrder::BigEndian;
    r.BO = vf_bool() ? EByteOrder::LittleEndian : EByteOrder::BigEndian;
    r.Addr = __vf_u16();
    VF_REQUIRES(r.Addr <= 0xFFFF - 4);
    TRegisterDesc d;
    d.Address = std::make_shared<TUint32RegisterAddress>(r.Addr);
    d.DataWidth = chars * 8;
    TRegisterConfig c(r.Type, d, two ? String8 : String, 1.0, 0.0, 0.0, TRegisterConfig::TSporadicMode::DISABLED, false, "t", r.WO, r.BO);
    VF_ASSERT(c.Get16BitWidth() == chars, "words of a text");
    dev.Base = r.Addr;
    dev.W = chars;
    size_t n = __vf_split(__vf_size(two ? 2 * chars : chars));
    auto s = vf_str(n);
    Modbus::TRegisterCache cache;
    Port p;
    Modbus::WriteRegister(dev, p, dev.Slave, c, TRegisterValue{s}, cache, us(0), ms(300), ms(20));
    VF_ASSERT(dev.Calls == 1, "one request");
    size_t w = n == 0 ? 1 : two ? (n + 1) / 2 : n; // an empty text is a terminator
    size_t j = __vf_index() % 4;
    if (j < w) {
        uint16_t m = Swap(dev.Mem[r.WO == EWordOrder::LittleEndian ? w - 1 - j : j], r.BO);
        uint16_t want = n == 0 ? 0 : two ? uint8_t(s[2 * j]) << 8 | (2 * j + 1 < n ? uint8_t(s[2 * j + 1]) : 0) : uint8_t(s[j]);
        VF_ASSERT(m == want, "the words have the characters of the text");
    }
    __vf_cover("written");
}
VF_HARNESS(text) { Text<false>(); }
VF_HARNESS(text8) { Text<true>(); }
// Reading one register: any answer.
struct Answers: Modbus::IModbusTraits
{
    std::vector<uint8_t> Answer, Request;
    Modbus::TReadResult Transaction(TPort&, uint8_t, const std::vector<uint8_t>& q, size_t, const ms&, const ms&, bool) override
    {
        Request = q;
        Modbus::TReadResult r;
        r.SlaveId = 1;
        r.Pdu = Answer;
        return r;
    }
};
template<bool partial> static void Read()
{
    Reg r;
    int type = partial ? int(Modbus::REG_HOLDING) : __vf_u8() % 6;
    VF_REQUIRES(type != Modbus::REG_COIL && type != Modbus::REG_DISCRETE);
    Make(r, type, partial);
    r.Words = __vf_split(r.Words);
    r.Type = Modbus::REG_HOLDING; // word order holds for all types when reading
    Answers t;
    t.Answer = vf_vec(__vf_size(VF_MAX));
    const auto& a = t.Answer;
    Port p;
    int what = 0;
    TRegisterValue v;
    try {
        v = Modbus::ReadRegister(t, p, 1, *r.C, us(0), ms(300), ms(20));
    } catch (const Modbus::TErrorBase&) {
        what = 1;
    }
    uint8_t fn = type == Modbus::REG_INPUT ? 4 : 3;
    VF_ASSERT(t.Request.size() == 5 && t.Request[0] == fn && (t.Request[1] << 8 | t.Request[2]) == r.Addr && (t.Request[3] << 8 | t.Request[4]) == int(r.Words), "the words of the register are read");
    bool good = a.size() >= 2 && a[0] == fn && a.size() == size_t(a[1]) + 2 && a[1] >= 2 * r.Words;
    VF_ASSERT((what == 0) == good, "only answers with all words of the register are accepted");
    if (!good) {
        __vf_cover("refused");
        return;
    }
    uint16_t m[4];
    for (unsigned i = 0; i < r.Words; ++i)
        m[i] = a[2 + 2 * i] << 8 | a[3 + 2 * i];
    VF_ASSERT(v.GetType() == TRegisterValue::ValueType::Integer && v.Get<uint64_t>() == (Number(m, r) >> r.Offset & Mask(r.Width)), "the value is that of the register's bits");
    __vf_cover("read");
}
VF_HARNESS(read_whole) { Read<false>(); }
VF_HARNESS(read_bits) { Read<true>(); }
VF_HARNESS(read_coil)
{
    uint16_t a = __vf_u16();
    bool coil = vf_bool();
    TRegisterDesc d;
    d.Address = std::make_shared<TUint32RegisterAddress>(a);
    TRegisterConfig c(coil ? Modbus::REG_COIL : Modbus::REG_DISCRETE, d, U8, 1.0, 0.0, 0.0, TRegisterConfig::TSporadicMode::DISABLED, false, "c", EWordOrder::BigEndian, EByteOrder::BigEndian);
    Answers t;
    t.Answer = vf_vec(__vf_size(VF_MAX));
    const auto& q = t.Answer;
    Port p;
    bool failed = false;
    TRegisterValue v;
    try {
        v = Modbus::ReadRegister(t, p, 1, c, us(0), ms(300), ms(20));
    } catch (const Modbus::TErrorBase&) {
        failed = true;
    }
    uint8_t fn = coil ? 1 : 2;
    VF_ASSERT(t.Request.size() == 5 && t.Request[0] == fn && (t.Request[1] << 8 | t.Request[2]) == a && t.Request[3] == 0 && t.Request[4] == 1, "the bit is read");
    bool good = q.size() >= 3 && q[0] == fn && q.size() == size_t(q[1]) + 2;
    VF_ASSERT(failed == !good, "only answers with data are accepted");
    if (good && q[2] <= 1)
        VF_ASSERT(v.Get<uint64_t>() == q[2], "the bit");
    __vf_cover("read");
}
VF_HARNESS(read_text)
{
    unsigned chars = __vf_split(1 + __vf_size(2));
    bool two = vf_bool();
    uint16_t addr = __vf_u16();
    EWordOrder wo = vf_bool() ? EWordOrder::LittleEndian : EWordOrder::BigEndian;
    EByteOrder bo = vf_bool() ? EByteOrder::LittleEndian : EByteOrder::BigEndian;
    TRegisterDesc d;
    d.Address = std::make_shared<TUint32RegisterAddress>(addr);
    d.DataWidth = chars * 8;
    TRegisterConfig c(Modbus::REG_INPUT, d, two ? String8 : String, 1.0, 0.0, 0.0, TRegisterConfig::TSporadicMode::DISABLED, false, "t", wo, bo);
    Answers t;
    t.Answer = vf_vec(2 + 2 * chars);
    t.Answer[0] = 4;
    t.Answer[1] = 2 * chars;
    Port p;
    auto v = Modbus::ReadRegister(t, p, 1, c, us(0), ms(300), ms(20));
    std::string want;
    bool end = false;
    for (unsigned i = 0; i < chars; ++i) {
        unsigned k = wo == EWordOrder::LittleEndian ? chars - 1 - i : i;
        uint16_t w = Swap(t.Answer[2 + 2 * k] << 8 | t.Answer[3 + 2 * k], bo);
        for (int h = two ? 1 : 0; h >= 0; --h) {
            uint8_t ch = w >> 8 * h;
            end |= ch == 0 || ch == 0xFF;
            if (!end)
                want.push_back(ch);
        }
    }
    VF_ASSERT(v.GetType() == TRegisterValue::ValueType::String && v.Get<std::string>() == want, "the characters up to the first 0 or 0xFF");
    __vf_cover("read");
}
