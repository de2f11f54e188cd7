// Clients of the column statistics: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <utility>

#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/format/column_stats.h"

namespace paimon::client22 {
// ---- Boolean
std::unique_ptr<ColumnStats> MakeBoolean(bool h0, bool lo, bool hi, bool hn, int64_t nulls) {
    std::optional<bool> min;
    std::optional<bool> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateBooleanColumnStats(min, max, count);
}
void FeedBoolean(BooleanColumnStats* s, int k, bool v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<bool> BooleanMin(bool h0, bool lo, bool hi, bool hn, int64_t nulls, int k1, bool v1, int k2, bool v2, int k3, bool v3) {
    std::unique_ptr<ColumnStats> b = MakeBoolean(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<BooleanColumnStats*>(b.get());
    FeedBoolean(s, k1, v1);
    FeedBoolean(s, k2, v2);
    FeedBoolean(s, k3, v3);
    return s->Min();
}
std::optional<bool> BooleanMax(bool h0, bool lo, bool hi, bool hn, int64_t nulls, int k1, bool v1, int k2, bool v2, int k3, bool v3) {
    std::unique_ptr<ColumnStats> b = MakeBoolean(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<BooleanColumnStats*>(b.get());
    FeedBoolean(s, k1, v1);
    FeedBoolean(s, k2, v2);
    FeedBoolean(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> BooleanNulls(bool h0, bool lo, bool hi, bool hn, int64_t nulls, int k1, bool v1, int k2, bool v2, int k3, bool v3) {
    std::unique_ptr<ColumnStats> b = MakeBoolean(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<BooleanColumnStats*>(b.get());
    FeedBoolean(s, k1, v1);
    FeedBoolean(s, k2, v2);
    FeedBoolean(s, k3, v3);
    return s->NullCount();
}
FieldType BooleanType(bool h0, bool lo, bool hi, bool hn, int64_t nulls) {
    return MakeBoolean(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- TinyInt
std::unique_ptr<ColumnStats> MakeTinyInt(bool h0, int8_t lo, int8_t hi, bool hn, int64_t nulls) {
    std::optional<int8_t> min;
    std::optional<int8_t> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateTinyIntColumnStats(min, max, count);
}
void FeedTinyInt(TinyIntColumnStats* s, int k, int8_t v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<int8_t> TinyIntMin(bool h0, int8_t lo, int8_t hi, bool hn, int64_t nulls, int k1, int8_t v1, int k2, int8_t v2, int k3, int8_t v3) {
    std::unique_ptr<ColumnStats> b = MakeTinyInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<TinyIntColumnStats*>(b.get());
    FeedTinyInt(s, k1, v1);
    FeedTinyInt(s, k2, v2);
    FeedTinyInt(s, k3, v3);
    return s->Min();
}
std::optional<int8_t> TinyIntMax(bool h0, int8_t lo, int8_t hi, bool hn, int64_t nulls, int k1, int8_t v1, int k2, int8_t v2, int k3, int8_t v3) {
    std::unique_ptr<ColumnStats> b = MakeTinyInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<TinyIntColumnStats*>(b.get());
    FeedTinyInt(s, k1, v1);
    FeedTinyInt(s, k2, v2);
    FeedTinyInt(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> TinyIntNulls(bool h0, int8_t lo, int8_t hi, bool hn, int64_t nulls, int k1, int8_t v1, int k2, int8_t v2, int k3, int8_t v3) {
    std::unique_ptr<ColumnStats> b = MakeTinyInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<TinyIntColumnStats*>(b.get());
    FeedTinyInt(s, k1, v1);
    FeedTinyInt(s, k2, v2);
    FeedTinyInt(s, k3, v3);
    return s->NullCount();
}
FieldType TinyIntType(bool h0, int8_t lo, int8_t hi, bool hn, int64_t nulls) {
    return MakeTinyInt(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- SmallInt
std::unique_ptr<ColumnStats> MakeSmallInt(bool h0, int16_t lo, int16_t hi, bool hn, int64_t nulls) {
    std::optional<int16_t> min;
    std::optional<int16_t> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateSmallIntColumnStats(min, max, count);
}
void FeedSmallInt(SmallIntColumnStats* s, int k, int16_t v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<int16_t> SmallIntMin(bool h0, int16_t lo, int16_t hi, bool hn, int64_t nulls, int k1, int16_t v1, int k2, int16_t v2, int k3, int16_t v3) {
    std::unique_ptr<ColumnStats> b = MakeSmallInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<SmallIntColumnStats*>(b.get());
    FeedSmallInt(s, k1, v1);
    FeedSmallInt(s, k2, v2);
    FeedSmallInt(s, k3, v3);
    return s->Min();
}
std::optional<int16_t> SmallIntMax(bool h0, int16_t lo, int16_t hi, bool hn, int64_t nulls, int k1, int16_t v1, int k2, int16_t v2, int k3, int16_t v3) {
    std::unique_ptr<ColumnStats> b = MakeSmallInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<SmallIntColumnStats*>(b.get());
    FeedSmallInt(s, k1, v1);
    FeedSmallInt(s, k2, v2);
    FeedSmallInt(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> SmallIntNulls(bool h0, int16_t lo, int16_t hi, bool hn, int64_t nulls, int k1, int16_t v1, int k2, int16_t v2, int k3, int16_t v3) {
    std::unique_ptr<ColumnStats> b = MakeSmallInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<SmallIntColumnStats*>(b.get());
    FeedSmallInt(s, k1, v1);
    FeedSmallInt(s, k2, v2);
    FeedSmallInt(s, k3, v3);
    return s->NullCount();
}
FieldType SmallIntType(bool h0, int16_t lo, int16_t hi, bool hn, int64_t nulls) {
    return MakeSmallInt(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- Int
std::unique_ptr<ColumnStats> MakeInt(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls) {
    std::optional<int32_t> min;
    std::optional<int32_t> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateIntColumnStats(min, max, count);
}
void FeedInt(IntColumnStats* s, int k, int32_t v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<int32_t> IntMin(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls, int k1, int32_t v1, int k2, int32_t v2, int k3, int32_t v3) {
    std::unique_ptr<ColumnStats> b = MakeInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<IntColumnStats*>(b.get());
    FeedInt(s, k1, v1);
    FeedInt(s, k2, v2);
    FeedInt(s, k3, v3);
    return s->Min();
}
std::optional<int32_t> IntMax(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls, int k1, int32_t v1, int k2, int32_t v2, int k3, int32_t v3) {
    std::unique_ptr<ColumnStats> b = MakeInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<IntColumnStats*>(b.get());
    FeedInt(s, k1, v1);
    FeedInt(s, k2, v2);
    FeedInt(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> IntNulls(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls, int k1, int32_t v1, int k2, int32_t v2, int k3, int32_t v3) {
    std::unique_ptr<ColumnStats> b = MakeInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<IntColumnStats*>(b.get());
    FeedInt(s, k1, v1);
    FeedInt(s, k2, v2);
    FeedInt(s, k3, v3);
    return s->NullCount();
}
FieldType IntType(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls) {
    return MakeInt(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- BigInt
std::unique_ptr<ColumnStats> MakeBigInt(bool h0, int64_t lo, int64_t hi, bool hn, int64_t nulls) {
    std::optional<int64_t> min;
    std::optional<int64_t> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateBigIntColumnStats(min, max, count);
}
void FeedBigInt(BigIntColumnStats* s, int k, int64_t v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<int64_t> BigIntMin(bool h0, int64_t lo, int64_t hi, bool hn, int64_t nulls, int k1, int64_t v1, int k2, int64_t v2, int k3, int64_t v3) {
    std::unique_ptr<ColumnStats> b = MakeBigInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<BigIntColumnStats*>(b.get());
    FeedBigInt(s, k1, v1);
    FeedBigInt(s, k2, v2);
    FeedBigInt(s, k3, v3);
    return s->Min();
}
std::optional<int64_t> BigIntMax(bool h0, int64_t lo, int64_t hi, bool hn, int64_t nulls, int k1, int64_t v1, int k2, int64_t v2, int k3, int64_t v3) {
    std::unique_ptr<ColumnStats> b = MakeBigInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<BigIntColumnStats*>(b.get());
    FeedBigInt(s, k1, v1);
    FeedBigInt(s, k2, v2);
    FeedBigInt(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> BigIntNulls(bool h0, int64_t lo, int64_t hi, bool hn, int64_t nulls, int k1, int64_t v1, int k2, int64_t v2, int k3, int64_t v3) {
    std::unique_ptr<ColumnStats> b = MakeBigInt(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<BigIntColumnStats*>(b.get());
    FeedBigInt(s, k1, v1);
    FeedBigInt(s, k2, v2);
    FeedBigInt(s, k3, v3);
    return s->NullCount();
}
FieldType BigIntType(bool h0, int64_t lo, int64_t hi, bool hn, int64_t nulls) {
    return MakeBigInt(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- Float
std::unique_ptr<ColumnStats> MakeFloat(bool h0, float lo, float hi, bool hn, int64_t nulls) {
    std::optional<float> min;
    std::optional<float> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateFloatColumnStats(min, max, count);
}
void FeedFloat(FloatColumnStats* s, int k, float v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<float> FloatMin(bool h0, float lo, float hi, bool hn, int64_t nulls, int k1, float v1, int k2, float v2, int k3, float v3) {
    std::unique_ptr<ColumnStats> b = MakeFloat(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<FloatColumnStats*>(b.get());
    FeedFloat(s, k1, v1);
    FeedFloat(s, k2, v2);
    FeedFloat(s, k3, v3);
    return s->Min();
}
std::optional<float> FloatMax(bool h0, float lo, float hi, bool hn, int64_t nulls, int k1, float v1, int k2, float v2, int k3, float v3) {
    std::unique_ptr<ColumnStats> b = MakeFloat(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<FloatColumnStats*>(b.get());
    FeedFloat(s, k1, v1);
    FeedFloat(s, k2, v2);
    FeedFloat(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> FloatNulls(bool h0, float lo, float hi, bool hn, int64_t nulls, int k1, float v1, int k2, float v2, int k3, float v3) {
    std::unique_ptr<ColumnStats> b = MakeFloat(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<FloatColumnStats*>(b.get());
    FeedFloat(s, k1, v1);
    FeedFloat(s, k2, v2);
    FeedFloat(s, k3, v3);
    return s->NullCount();
}
FieldType FloatType(bool h0, float lo, float hi, bool hn, int64_t nulls) {
    return MakeFloat(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- Double
std::unique_ptr<ColumnStats> MakeDouble(bool h0, double lo, double hi, bool hn, int64_t nulls) {
    std::optional<double> min;
    std::optional<double> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateDoubleColumnStats(min, max, count);
}
void FeedDouble(DoubleColumnStats* s, int k, double v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<double> DoubleMin(bool h0, double lo, double hi, bool hn, int64_t nulls, int k1, double v1, int k2, double v2, int k3, double v3) {
    std::unique_ptr<ColumnStats> b = MakeDouble(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<DoubleColumnStats*>(b.get());
    FeedDouble(s, k1, v1);
    FeedDouble(s, k2, v2);
    FeedDouble(s, k3, v3);
    return s->Min();
}
std::optional<double> DoubleMax(bool h0, double lo, double hi, bool hn, int64_t nulls, int k1, double v1, int k2, double v2, int k3, double v3) {
    std::unique_ptr<ColumnStats> b = MakeDouble(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<DoubleColumnStats*>(b.get());
    FeedDouble(s, k1, v1);
    FeedDouble(s, k2, v2);
    FeedDouble(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> DoubleNulls(bool h0, double lo, double hi, bool hn, int64_t nulls, int k1, double v1, int k2, double v2, int k3, double v3) {
    std::unique_ptr<ColumnStats> b = MakeDouble(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<DoubleColumnStats*>(b.get());
    FeedDouble(s, k1, v1);
    FeedDouble(s, k2, v2);
    FeedDouble(s, k3, v3);
    return s->NullCount();
}
FieldType DoubleType(bool h0, double lo, double hi, bool hn, int64_t nulls) {
    return MakeDouble(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- String
std::unique_ptr<ColumnStats> MakeString(bool h0, const std::string& lo, const std::string& hi, bool hn, int64_t nulls) {
    std::optional<std::string> min;
    std::optional<std::string> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateStringColumnStats(min, max, count);
}
void FeedString(StringColumnStats* s, int k, const std::string& v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<std::string> StringMin(bool h0, const std::string& lo, const std::string& hi, bool hn, int64_t nulls, int k1, const std::string& v1, int k2, const std::string& v2, int k3, const std::string& v3) {
    std::unique_ptr<ColumnStats> b = MakeString(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<StringColumnStats*>(b.get());
    FeedString(s, k1, v1);
    FeedString(s, k2, v2);
    FeedString(s, k3, v3);
    return s->Min();
}
std::optional<std::string> StringMax(bool h0, const std::string& lo, const std::string& hi, bool hn, int64_t nulls, int k1, const std::string& v1, int k2, const std::string& v2, int k3, const std::string& v3) {
    std::unique_ptr<ColumnStats> b = MakeString(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<StringColumnStats*>(b.get());
    FeedString(s, k1, v1);
    FeedString(s, k2, v2);
    FeedString(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> StringNulls(bool h0, const std::string& lo, const std::string& hi, bool hn, int64_t nulls, int k1, const std::string& v1, int k2, const std::string& v2, int k3, const std::string& v3) {
    std::unique_ptr<ColumnStats> b = MakeString(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<StringColumnStats*>(b.get());
    FeedString(s, k1, v1);
    FeedString(s, k2, v2);
    FeedString(s, k3, v3);
    return s->NullCount();
}
FieldType StringType(bool h0, const std::string& lo, const std::string& hi, bool hn, int64_t nulls) {
    return MakeString(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- Date
std::unique_ptr<ColumnStats> MakeDate(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls) {
    std::optional<int32_t> min;
    std::optional<int32_t> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateDateColumnStats(min, max, count);
}
void FeedDate(DateColumnStats* s, int k, int32_t v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<int32_t> DateMin(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls, int k1, int32_t v1, int k2, int32_t v2, int k3, int32_t v3) {
    std::unique_ptr<ColumnStats> b = MakeDate(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<DateColumnStats*>(b.get());
    FeedDate(s, k1, v1);
    FeedDate(s, k2, v2);
    FeedDate(s, k3, v3);
    return s->Min();
}
std::optional<int32_t> DateMax(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls, int k1, int32_t v1, int k2, int32_t v2, int k3, int32_t v3) {
    std::unique_ptr<ColumnStats> b = MakeDate(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<DateColumnStats*>(b.get());
    FeedDate(s, k1, v1);
    FeedDate(s, k2, v2);
    FeedDate(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> DateNulls(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls, int k1, int32_t v1, int k2, int32_t v2, int k3, int32_t v3) {
    std::unique_ptr<ColumnStats> b = MakeDate(h0, lo, hi, hn, nulls);
    auto s = dynamic_cast<DateColumnStats*>(b.get());
    FeedDate(s, k1, v1);
    FeedDate(s, k2, v2);
    FeedDate(s, k3, v3);
    return s->NullCount();
}
FieldType DateType(bool h0, int32_t lo, int32_t hi, bool hn, int64_t nulls) {
    return MakeDate(h0, lo, hi, hn, nulls)->GetFieldType();
}
// ---- Timestamp
std::unique_ptr<ColumnStats> MakeTimestamp(bool h0, const Timestamp& lo, const Timestamp& hi, bool hn, int64_t nulls, int32_t precision) {
    std::optional<Timestamp> min;
    std::optional<Timestamp> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateTimestampColumnStats(min, max, count, precision);
}
void FeedTimestamp(TimestampColumnStats* s, int k, const Timestamp& v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<Timestamp> TimestampMin(bool h0, const Timestamp& lo, const Timestamp& hi, bool hn, int64_t nulls, int32_t precision, int k1, const Timestamp& v1, int k2, const Timestamp& v2, int k3, const Timestamp& v3) {
    std::unique_ptr<ColumnStats> b = MakeTimestamp(h0, lo, hi, hn, nulls, precision);
    auto s = dynamic_cast<TimestampColumnStats*>(b.get());
    FeedTimestamp(s, k1, v1);
    FeedTimestamp(s, k2, v2);
    FeedTimestamp(s, k3, v3);
    return s->Min();
}
std::optional<Timestamp> TimestampMax(bool h0, const Timestamp& lo, const Timestamp& hi, bool hn, int64_t nulls, int32_t precision, int k1, const Timestamp& v1, int k2, const Timestamp& v2, int k3, const Timestamp& v3) {
    std::unique_ptr<ColumnStats> b = MakeTimestamp(h0, lo, hi, hn, nulls, precision);
    auto s = dynamic_cast<TimestampColumnStats*>(b.get());
    FeedTimestamp(s, k1, v1);
    FeedTimestamp(s, k2, v2);
    FeedTimestamp(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> TimestampNulls(bool h0, const Timestamp& lo, const Timestamp& hi, bool hn, int64_t nulls, int32_t precision, int k1, const Timestamp& v1, int k2, const Timestamp& v2, int k3, const Timestamp& v3) {
    std::unique_ptr<ColumnStats> b = MakeTimestamp(h0, lo, hi, hn, nulls, precision);
    auto s = dynamic_cast<TimestampColumnStats*>(b.get());
    FeedTimestamp(s, k1, v1);
    FeedTimestamp(s, k2, v2);
    FeedTimestamp(s, k3, v3);
    return s->NullCount();
}
FieldType TimestampType(bool h0, const Timestamp& lo, const Timestamp& hi, bool hn, int64_t nulls, int32_t precision) {
    return MakeTimestamp(h0, lo, hi, hn, nulls, precision)->GetFieldType();
}
// ---- Decimal
std::unique_ptr<ColumnStats> MakeDecimal(bool h0, const Decimal& lo, const Decimal& hi, bool hn, int64_t nulls, int32_t precision, int32_t scale) {
    std::optional<Decimal> min;
    std::optional<Decimal> max;
    if (h0) {
        min = lo;
        max = hi;
    }
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    return ColumnStats::CreateDecimalColumnStats(min, max, count, precision, scale);
}
void FeedDecimal(DecimalColumnStats* s, int k, const Decimal& v) {
    if (k == 1) {
        s->Collect(v);
    } else if (k == 2) {
        s->Collect(std::nullopt);
    }
}
std::optional<Decimal> DecimalMin(bool h0, const Decimal& lo, const Decimal& hi, bool hn, int64_t nulls, int32_t precision, int32_t scale, int k1, const Decimal& v1, int k2, const Decimal& v2, int k3, const Decimal& v3) {
    std::unique_ptr<ColumnStats> b = MakeDecimal(h0, lo, hi, hn, nulls, precision, scale);
    auto s = dynamic_cast<DecimalColumnStats*>(b.get());
    FeedDecimal(s, k1, v1);
    FeedDecimal(s, k2, v2);
    FeedDecimal(s, k3, v3);
    return s->Min();
}
std::optional<Decimal> DecimalMax(bool h0, const Decimal& lo, const Decimal& hi, bool hn, int64_t nulls, int32_t precision, int32_t scale, int k1, const Decimal& v1, int k2, const Decimal& v2, int k3, const Decimal& v3) {
    std::unique_ptr<ColumnStats> b = MakeDecimal(h0, lo, hi, hn, nulls, precision, scale);
    auto s = dynamic_cast<DecimalColumnStats*>(b.get());
    FeedDecimal(s, k1, v1);
    FeedDecimal(s, k2, v2);
    FeedDecimal(s, k3, v3);
    return s->Max();
}
std::optional<int64_t> DecimalNulls(bool h0, const Decimal& lo, const Decimal& hi, bool hn, int64_t nulls, int32_t precision, int32_t scale, int k1, const Decimal& v1, int k2, const Decimal& v2, int k3, const Decimal& v3) {
    std::unique_ptr<ColumnStats> b = MakeDecimal(h0, lo, hi, hn, nulls, precision, scale);
    auto s = dynamic_cast<DecimalColumnStats*>(b.get());
    FeedDecimal(s, k1, v1);
    FeedDecimal(s, k2, v2);
    FeedDecimal(s, k3, v3);
    return s->NullCount();
}
FieldType DecimalType(bool h0, const Decimal& lo, const Decimal& hi, bool hn, int64_t nulls, int32_t precision, int32_t scale) {
    return MakeDecimal(h0, lo, hi, hn, nulls, precision, scale)->GetFieldType();
}
int32_t TimestampPrecision(int32_t precision) {
    std::unique_ptr<ColumnStats> b = ColumnStats::CreateTimestampColumnStats(std::nullopt, std::nullopt, std::nullopt, precision);
    return dynamic_cast<TimestampColumnStats*>(b.get())->GetPrecision();
}
int32_t DecimalPrecision(int32_t precision, int32_t scale) {
    std::unique_ptr<ColumnStats> b = ColumnStats::CreateDecimalColumnStats(std::nullopt, std::nullopt, std::nullopt, precision, scale);
    return dynamic_cast<DecimalColumnStats*>(b.get())->GetPrecision();
}
int32_t DecimalScale(int32_t precision, int32_t scale) {
    std::unique_ptr<ColumnStats> b = ColumnStats::CreateDecimalColumnStats(std::nullopt, std::nullopt, std::nullopt, precision, scale);
    return dynamic_cast<DecimalColumnStats*>(b.get())->GetScale();
}
Timestamp Time(int64_t ms, int32_t ns) {
    return Timestamp(ms, ns);
}
Decimal Dec(int32_t precision, int32_t scale, int64_t v) {
    return Decimal(precision, scale, v);
}
FieldType NestedType(int kind, bool hn, int64_t nulls) {
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    FieldType t = kind == 0 ? FieldType::ARRAY : kind == 1 ? FieldType::MAP : FieldType::STRUCT;
    return ColumnStats::CreateNestedColumnStats(t, count)->GetFieldType();
}
std::optional<int64_t> NestedNulls(int kind, bool hn, int64_t nulls) {
    std::optional<int64_t> count;
    if (hn) {
        count = nulls;
    }
    FieldType t = kind == 0 ? FieldType::ARRAY : kind == 1 ? FieldType::MAP : FieldType::STRUCT;
    return ColumnStats::CreateNestedColumnStats(t, count)->NullCount();
}
}  // namespace paimon::client22
