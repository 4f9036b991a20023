// C21: polling reads of Modbus registers: which registers share a request, and what an answer does to them.
#define FORCE
#include <cstddef>
namespace Modbus
{
__attribute__((noinline)) size_t InferReadResponsePDUSize(int, size_t);
}
#include "modbus.inc"
static int Results, Ok;
struct Dev: TModbusDevice
{
    using TModbusDevice::TModbusDevice;
    std::string ToString() const override { return "d"; }
    void SetTransferResult(bool ok) override
    {
        ++Results;
        Ok += ok;
    }
};
struct Answers: Modbus::IModbusTraits
{
    std::vector<uint8_t> Answer, Request;
    int Calls = 0, Fail = 0;
    bool Force = false;
    ms Rt{0}, Ft{0};
    Modbus::TReadResult Transaction(TPort&, uint8_t slave, const std::vector<uint8_t>& q, size_t expected, const ms& rt, const ms& ft, bool) override
    {
        VF_ASSERT(slave == 17, "the device is addressed");
        VF_ASSERT(rt == Rt && ft == Ft, "timeouts of the device");
        ++Calls;
        Request = q;
        if (q.size() == 5) {
            unsigned n = q[3] << 8 | q[4];
            VF_ASSERT(expected == 2 + (q[0] < 3 ? (n + 7) / 8 : 2 * n), "size of the expected answer");
        }
        if (Fail == 1)
            throw TSerialDeviceTransientErrorException("timeout");
        if (Fail == 2)
            throw Modbus::TMalformedResponseError("");
        if (Fail == 3)
            throw Modbus::TUnexpectedResponseError("");
        Modbus::TReadResult r;
        r.SlaveId = slave;
        r.Pdu = Answer;
        return r;
    }
};
// a port that needs any time for its bytes
struct AnyPort: Port
{
    mutable double Bytes = 0;
    us Time{__vf_u16()};
    us GetSendTimeBytes(double n) const override
    {
        Bytes = n;
        return Time;
    }
};
struct Setup
{
    PDeviceConfig C = std::make_shared<TDeviceConfig>();
    std::shared_ptr<Dev> D;
    Setup()
    {
        MessagesAreIrrelevant();
        Results = Ok = 0;
        C->SlaveId = "17";
        TModbusDeviceConfig mc;
        mc.CommonConfig = C;
        D = std::make_shared<Dev>(nullptr, mc, nullptr);
    }
};
static const RegisterFormat FORMATS[] = {U16, U32, U64};
static PRegister Make(Setup& s, int type, uint32_t addr, unsigned f, EWordOrder wo = EWordOrder::BigEndian, EByteOrder bo = EByteOrder::BigEndian)
{
    TRegisterDesc d;
    d.Address = std::make_shared<TUint32RegisterAddress>(addr);
    auto c = std::make_shared<TRegisterConfig>(type, d, FORMATS[f], 1.0, 0.0, 0.0, TRegisterConfig::TSporadicMode::DISABLED, false, "r", wo, bo);
    return std::make_shared<TRegister>(s.D, c);
}
static bool IsBit(int type) { return type == Modbus::REG_COIL || type == Modbus::REG_DISCRETE; }
static bool Force;
bool TModbusDevice::GetForceFrameTimeout() { return Force; }
static TRegisterAvailability Av()
{
    uint8_t a = __vf_u8();
    VF_REQUIRES(a < 3);
    return TRegisterAvailability(a);
}
static size_t Pdu(int type, size_t n) { return 2 + (IsBit(type) ? (n + 7) / 8 : 2 * n); }
VF_HARNESS(pdu_size)
{
    int type = __vf_u8() % 6;
    size_t n = __vf_size(2000);
    VF_ASSERT(Modbus::InferReadResponsePDUSize(type, n) == 2 + (IsBit(type) ? (n + 7) / 8 : 2 * n), "size of an answer");
    __vf_cover("size");
}
// One register is added to a request with any number of registers.
template<bool first, bool bits> static void Add()
{
    Setup s, other;
    s.C->MaxRegHole = __vf_u8();
    s.C->MaxBitHole = __vf_u8();
    s.C->MaxReadRegisters = __vf_u16();
    s.C->RequestDelay = us(__vf_u16());
    s.C->FrameTimeout = ms(__vf_u8());
    s.D->SetSupportsHoles(vf_bool());
    s.D->ContinuousReadEnabled = vf_bool();
    Force = vf_bool();
    us average(__vf_u16());
    Modbus::TModbusRegisterRange range(average);
    int type = bits ? (vf_bool() ? Modbus::REG_COIL : Modbus::REG_DISCRETE) : vf_bool() ? Modbus::REG_HOLDING : Modbus::REG_INPUT;
    unsigned f = bits ? 0 : __vf_split(__vf_size(2));
    unsigned w = 1 << f;
    uint32_t addr = __vf_u16();
    int type2 = vf_bool() ? type : bits ? int(Modbus::REG_HOLDING) : int(Modbus::REG_COIL);
    bool device2 = vf_bool();
    PRegister back;
    uint32_t start = 0;
    size_t count = 0;
    bool holes = false;
    if (!first) {
        start = __vf_u16();
        count = __vf_u16();
        VF_REQUIRES(count > 0 && count <= 2000 && start + count <= 0x10000);
        holes = vf_bool();
        back = Make(device2 ? other : s, type2, start, 0);
        back->Available = Av();
        VF_REQUIRES(back->Available != TRegisterAvailability::UNAVAILABLE);
        range.RegisterList().push_back(back);
        range.Start = start;
        range.Count = count;
        range.HasHolesFlg = holes;
    }
    auto reg = Make(s, type, addr, f);
    auto av = reg->Available = Av();
    ms limit(__vf_u16());
    AnyPort p;
    __vf_callee("Modbus::InferReadResponsePDUSize(", (void*)&Pdu);
    bool res = range.Add(p, reg, limit);
    size_t n = first ? w : std::max<size_t>(start + count, addr + w) - start;
    size_t bytes = 2 + (bits ? (n + 7) / 8 : 2 * n) + 8 + 5;
    us time = p.Time + average + s.C->RequestDelay + (Force ? us(s.C->FrameTimeout) : us(0));
    bool fits = std::chrono::ceil<ms>(time) <= limit;
    bool want = true;
    bool continuous = s.D->ContinuousReadEnabled;
    if (av == TRegisterAvailability::UNAVAILABLE) {
        VF_ASSERT(res && range.RegisterList().size() == (first ? 0 : 1) && range.Count == count, "unavailable registers are not read");
        __vf_cover("unavailable");
        return;
    }
    if (!first) {
        size_t hole = s.D->GetSupportsHoles() ? (bits ? s.C->MaxBitHole : s.C->MaxRegHole) : 0;
        size_t max = bits ? 2000 : 125;
        if (s.C->MaxReadRegisters > 0 && size_t(s.C->MaxReadRegisters) < max)
            max = s.C->MaxReadRegisters;
        size_t unknown = bits && s.C->MaxReadRegisters > 0 && s.C->MaxReadRegisters <= 125 ? s.C->MaxReadRegisters : 16;
        bool gap = start + count < addr;
        want = type == type2 && !device2 && addr >= start && addr <= start + count + hole && n <= max;
        if (!continuous) {
            if (back->Available == TRegisterAvailability::UNKNOWN)
                want = want && bits && !gap && !(av == TRegisterAvailability::UNKNOWN && 1 >= unknown);
            else
                want = want && av != TRegisterAvailability::UNKNOWN;
        }
        // the duration counts only if the request gets longer
        bool longer = bits ? count % 16 == 0 || n > (count / 16 + 1) * 16 : n > count;
        want = want && (!longer || fits);
        VF_ASSERT(!res || n <= max, "the request is within the limits");
        VF_ASSERT(!res || (type == type2 && !device2), "registers of one type of one device");
        VF_ASSERT(!res || (addr >= range.Start && addr + w <= range.Start + range.Count), "the register is read");
    } else {
        want = fits;
        start = addr;
    }
    VF_ASSERT(p.Bytes == 0 || p.Bytes == double(bytes), "the time is that of the request and its answer");
    VF_ASSERT(res == want, "registers are read together exactly if that is possible");
    if (!res) {
        VF_ASSERT(range.Count == count && range.RegisterList().size() == (first ? 0 : 1), "a refused register changes nothing");
        __vf_cover("refused");
        return;
    }
    VF_ASSERT(range.RegisterList().size() == (first ? 1 : 2) && range.RegisterList().back() == reg, "an accepted register is in the request");
    VF_ASSERT(range.Start == start && range.Count == n, "extent of the request");
    if (!first && (continuous || back->Available != TRegisterAvailability::UNKNOWN))
        VF_ASSERT(range.HasHoles() == (holes || addr > start + count), "holes of the request");
    __vf_cover("accepted");
}
VF_HARNESS(add_first) { Add<true, false>(); }
VF_HARNESS(add_first_bit) { Add<true, true>(); }
VF_HARNESS(add) { Add<false, false>(); }
VF_HARNESS(add_bit) { Add<false, true>(); }
// Reading a request with two registers.
template<bool bits, int bitType = Modbus::REG_COIL> static void Read()
{
    Setup s;
    s.C->RequestDelay = us(__vf_u16());
    s.C->ContinuePollingOnIllegalModbusException = !(bits && __vf_proving()) && vf_bool();
    s.C->ResponseTimeout = ms(__vf_u16());
    const bool few = bits && __vf_proving(); // bits: bounded
    const size_t most = few ? 17 : bits ? 2000 : 125;
    size_t min = __vf_size(few ? 1 : 125);
    s.C->MinReadRegisters = min;
    Port p;
    int type = bits ? bitType : vf_bool() ? Modbus::REG_HOLDING : Modbus::REG_INPUT;
    unsigned f[2] = {bits ? 0 : unsigned(__vf_split(__vf_size(1))), 0}, at[2] = {0, unsigned(__vf_size(few ? 16 : bits ? 2000 : 120))};
    auto bo = vf_bool() ? EByteOrder::LittleEndian : EByteOrder::BigEndian;
    uint32_t start = __vf_u16();
    int shift = !few && vf_bool() ? 100 : 0;
    PRegister r[2];
    Modbus::TModbusRegisterRange range(us(0));
    uint64_t old = __vf_u64();
    for (int i = 0; i < 2; ++i) {
        r[i] = Make(s, type, start + at[i], f[i], EWordOrder::BigEndian, bo);
        r[i]->Available = TRegisterAvailability::AVAILABLE;
        r[i]->Value = TRegisterValue{old};
        range.RegisterList().push_back(r[i]);
    }
    bool allowed = few || vf_bool(); // holes may have been given up while the request was pending
    s.D->SetSupportsHoles(allowed);
    size_t count = __vf_u16();
    VF_REQUIRES(count >= at[1] + 1 && count >= (size_t(1) << f[0]) && count <= most && start + count + 100 <= 0x10000 && start + min + 100 <= 0x10000);
    if (few) {
        VF_REQUIRES(count % 8 == 1);
        count = __vf_split(count);
    }
    range.Start = start;
    range.Count = count;
    bool holes = range.HasHolesFlg = !few && vf_bool();
    bool brk = !few && vf_bool();
    Answers t;
    t.Rt = s.C->ResponseTimeout;
    t.Fail = few ? 0 : __vf_split(__vf_u8() % 4);
    t.Answer = vf_vec(few ? __vf_split(__vf_size(5)) : __vf_size(VF_MAX));
    const auto& a = t.Answer;
    Modbus::TRegisterCache cache;
    int thrown = 0;
    try {
        Modbus::ReadRegisterRange(t, p, 17, range, cache, brk, shift);
    } catch (const TSerialDevicePermanentRegisterException&) {
        thrown = 2;
    } catch (const TSerialDeviceException&) {
        thrown = 1;
    }
    size_t n = std::max(count, min);
    uint8_t fn = type == Modbus::REG_COIL ? 1 : type == Modbus::REG_DISCRETE ? 2 : type == Modbus::REG_HOLDING ? 3 : 4;
    const auto& q = t.Request;
    VF_ASSERT(t.Calls == 1 && q.size() == 5 && q[0] == fn && (q[1] << 8 | q[2]) == int(start) + shift && size_t(q[3] << 8 | q[4]) == n, "one request reads the registers");
    VF_ASSERT(p.Pauses == 1 && p.Pause == s.C->RequestDelay, "the delay of the device precedes the request");
    size_t need = bits ? (n + 7) / 8 : 2 * n;
    bool good = !t.Fail && a.size() >= 2 && a[0] == fn && a.size() == size_t(a[1]) + 2 && a[1] >= need;
    bool refused = !t.Fail && a.size() >= 2 && a[0] == (fn | 0x80);
    bool illegal = refused && a[1] >= 1 && a[1] <= 3;
    int i = __vf_split(__vf_index() % 2);
    VF_ASSERT(Results == 1 && Ok == good, "the result of the transfer is known");
    VF_ASSERT(s.D->GetSupportsHoles() == (allowed && !(illegal && holes)), "holes are not read any more if the device refuses a request with holes");
    bool off = illegal && !holes && !s.C->ContinuePollingOnIllegalModbusException;
    VF_ASSERT((r[i]->GetAvailable() == TRegisterAvailability::UNAVAILABLE) == off, "only registers which the device refuses become unavailable");
    VF_ASSERT(r[i]->IsExcludedFromPolling() == off, "only unavailable registers are excluded from polling");
    VF_ASSERT(r[i]->GetErrorState().test(TRegister::ReadError) == !good, "a read error is set exactly if there is no value");
    VF_ASSERT(thrown == (brk && !good ? (illegal ? 2 : 1) : 0), "errors are thrown if asked for");
    if (!good) {
        VF_ASSERT(r[i]->GetValue().Get<uint64_t>() == old && cache.empty(), "without an answer nothing changes");
        __vf_cover("failed");
        return;
    }
    uint64_t v = 0;
    if (bits)
        v = a[2 + at[i] / 8] >> at[i] % 8 & 1;
    else
        for (unsigned k = 0; k < 1u << f[i]; ++k) {
            size_t o = 2 + 2 * (at[i] + k);
            uint16_t m = bo == EByteOrder::LittleEndian ? a[o] | a[o + 1] << 8 : a[o] << 8 | a[o + 1];
            v = v << 16 | m;
            if (type == Modbus::REG_HOLDING)
                VF_ASSERT(cache.count(start + at[i] + k) == 1 && cache[start + at[i] + k] == m, "holding registers are remembered");
        }
    VF_ASSERT(r[i]->GetValue().Get<uint64_t>() == v, "every register has the value of its place in the answer");
    if (type != Modbus::REG_HOLDING)
        VF_ASSERT(cache.empty(), "only holding registers are remembered");
    __vf_cover("read");
}
VF_HARNESS(read_words) { Read<false>(); }
VF_HARNESS(read_coils) { Read<true>(); }
VF_HARNESS(read_discrete) { Read<true, Modbus::REG_DISCRETE>(); }
