// Stand-in for the parts of casacore's "tables" and "ms" modules that DP3
// uses: tables live in memory in a simulated "disk", row selections and sorts
// are reference tables onto it. Every access to stored data calls a hook in
// which the simulator can preempt, inject an I/O error, or notice that two
// threads are inside the same table (casacore tables are not thread safe).
#ifndef VERIF_MINI_TABLES_H_
#define VERIF_MINI_TABLES_H_
#include "mini_casa.h"

namespace casacore {

enum DataType { TpBool, TpChar, TpUChar, TpShort, TpUShort, TpInt, TpUInt, TpFloat, TpDouble,
                TpComplex, TpDComplex, TpString, TpTable, TpArrayBool, TpRecord, TpOther, TpInt64 };
namespace mini_detail {
template <class T> struct TypeOf { static constexpr DataType value = TpOther; };
template <> struct TypeOf<bool> { static constexpr DataType value = TpBool; };
template <> struct TypeOf<uChar> { static constexpr DataType value = TpUChar; };
template <> struct TypeOf<short> { static constexpr DataType value = TpShort; };
template <> struct TypeOf<int> { static constexpr DataType value = TpInt; };
template <> struct TypeOf<unsigned> { static constexpr DataType value = TpUInt; };
template <> struct TypeOf<Int64> { static constexpr DataType value = TpInt64; };
template <> struct TypeOf<float> { static constexpr DataType value = TpFloat; };
template <> struct TypeOf<double> { static constexpr DataType value = TpDouble; };
template <> struct TypeOf<Complex> { static constexpr DataType value = TpComplex; };
template <> struct TypeOf<DComplex> { static constexpr DataType value = TpDComplex; };
template <> struct TypeOf<String> { static constexpr DataType value = TpString; };

/// op: 'r' read, 'w' write, 'f' flush, 'o' open, 'c' create, 'a' add rows.
inline std::function<void(char op, const std::string& table, const std::string& column)> table_hook;
inline std::function<int()> table_thread;
}  // namespace mini_detail

class TableRecord : public Record {
 public:
  TableRecord() {}
  TableRecord(const Record& r) : Record(r) {}
  inline void defineTable(const std::string& n, const Table& t);
  inline Table asTable(const std::string& n) const;
  inline Table asTable(int i) const;
  DataType type(int i) const {
    const Value& v = Get(name(i));
    if (std::holds_alternative<std::shared_ptr<mini_detail::TableHolder>>(v)) return TpTable;
    if (std::holds_alternative<std::shared_ptr<Record>>(v)) return TpRecord;
    if (std::holds_alternative<std::string>(v)) return TpString;
    if (std::holds_alternative<bool>(v)) return TpBool;
    if (std::holds_alternative<int64_t>(v)) return TpInt;
    if (std::holds_alternative<double>(v)) return TpDouble;
    return TpOther;
  }
  DataType dataType(int i) const { return type(i); }
};

class DataManager {
 public:
  DataManager(const std::string& t = "StandardStMan", const std::string& n = "") : type_(t), name_(n) {}
  virtual ~DataManager() = default;
  String dataManagerType() const { return type_; }
  String dataManagerName() const { return name_; }
  typedef DataManager* (*Ctor)(const String&, const Record&);
  static DataManager* Make(const String& n, const Record&) { return new DataManager("Custom", n); }
  static Ctor getCtor(const std::string&) { return &Make; }

 private:
  std::string type_, name_;
};
typedef DataManager::Ctor DataManagerCtor;
class StandardStMan : public DataManager {
 public:
  StandardStMan(const std::string& n = "SSM", int = 0, int = 0) : DataManager("StandardStMan", n) {}
  StandardStMan(int) : DataManager("StandardStMan", "SSM") {}
};
class IncrementalStMan : public DataManager {
 public:
  IncrementalStMan(const std::string& n = "ISM", int = 0, bool = true) : DataManager("IncrementalStMan", n) {}
};
class TiledColumnStMan : public DataManager {
 public:
  TiledColumnStMan(const std::string& n, const IPosition&, unsigned = 0) : DataManager("TiledColumnStMan", n) {}
};
class TiledShapeStMan : public DataManager {
 public:
  TiledShapeStMan(const std::string& n, const IPosition&) : DataManager("TiledShapeStMan", n) {}
};
class ROTiledStManAccessor {
 public:
  ROTiledStManAccessor(const Table&, const std::string&, bool = false) {}
  IPosition tileShape(size_t) const { return IPosition(3, 1, 1, 1); }
  IPosition getTileShape(size_t) const { return IPosition(3, 1, 1, 1); }
};

class BaseColumnDesc {};
class ColumnDesc {
 public:
  enum Option { Direct = 1, Undefined = 2, FixedShape = 4 };
  ColumnDesc() {}
  ColumnDesc(const std::string& n, DataType t, bool array) : name_(n), type_(t), array_(array) {}
  const String& name() const { return name_; }
  DataType dataType() const { return type_; }
  bool isArray() const { return array_; }
  bool isScalar() const { return !array_; }
  bool isFixedShape() const { return options_ & FixedShape; }
  const IPosition& shape() const { return shape_; }
  int ndim() const { return shape_.empty() ? ndim_ : int(shape_.size()); }
  int options() const { return options_; }
  void setOptions(int o) {
    options_ = o;
    if (!(o & FixedShape)) shape_ = IPosition();
  }
  void setShape(const IPosition& s) {
    shape_ = s;
    options_ |= FixedShape;
  }
  void setShape(const IPosition& s, bool) { setShape(s); }
  void setNdim(int n) { ndim_ = n; }
  void setName(const std::string& n) { name_ = n; }
  const TableRecord& keywordSet() const { return keys_; }
  TableRecord& rwKeywordSet() { return keys_; }
  String& comment() { return comment_; }
  const String& comment() const { return comment_; }
  String& dataManagerType() { return dmtype_; }
  const String& dataManagerType() const { return dmtype_; }
  String& dataManagerGroup() { return dmgroup_; }
  const String& dataManagerGroup() const { return dmgroup_; }

 protected:
  String name_, comment_, dmtype_, dmgroup_;
  DataType type_ = TpOther;
  bool array_ = false;
  IPosition shape_;
  int ndim_ = -1;
  int options_ = 0;
  TableRecord keys_;
};
template <class T>
class ScalarColumnDesc : public ColumnDesc {
 public:
  ScalarColumnDesc(const std::string& n, int = 0) : ColumnDesc(n, mini_detail::TypeOf<T>::value, false) {}
  ScalarColumnDesc(const std::string& n, const std::string& comment, int = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, false) { comment_ = comment; }
  ScalarColumnDesc(const std::string& n, const std::string& comment, const std::string&,
                   const std::string&, int = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, false) { comment_ = comment; }
  /// Only the default of the type itself is supported.
  void setDefault(const T& v) {
    if (!(v == T())) throw TableError("default values are not supported");
  }
};
template <class T>
class ArrayColumnDesc : public ColumnDesc {
 public:
  ArrayColumnDesc(const std::string& n, int ndim = -1, int options = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, true) { ndim_ = ndim; options_ = options; }
  ArrayColumnDesc(const std::string& n, const std::string& comment, int ndim = -1, int options = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, true) {
    comment_ = comment;
    ndim_ = ndim;
    options_ = options;
  }
  ArrayColumnDesc(const std::string& n, const IPosition& s, int options = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, true) {
    shape_ = s;
    options_ = options | FixedShape;
  }
  ArrayColumnDesc(const std::string& n, const std::string& comment, const IPosition& s, int options = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, true) {
    comment_ = comment;
    shape_ = s;
    options_ = options | FixedShape;
  }
  ArrayColumnDesc(const std::string& n, const std::string& comment, const std::string&,
                  const std::string&, int ndim = -1, int options = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, true) {
    comment_ = comment;
    ndim_ = ndim;
    options_ = options;
  }
  ArrayColumnDesc(const std::string& n, const std::string& comment, const std::string&,
                  const std::string&, const IPosition& s, int options = 0)
      : ColumnDesc(n, mini_detail::TypeOf<T>::value, true) {
    comment_ = comment;
    shape_ = s;
    options_ = options | FixedShape;
  }
};

class TableDesc {
 public:
  enum TDOption { Old = 1, New, NewNoReplace, Scratch, Update, Delete };
  TableDesc() {}
  TableDesc(const std::string&, TDOption = Scratch) {}
  TableDesc(const std::string&, const std::string&, TDOption = Scratch) {}
  TableDesc(const TableDesc& o, const std::string&, const std::string&, TDOption) : cols_(o.cols_), keys_(o.keys_) {}
  TableDesc(const TableDesc&) = default;
  TableDesc& operator=(const TableDesc&) = default;
  bool isColumn(const std::string& n) const { return Find(n) != nullptr; }
  const ColumnDesc& columnDesc(const std::string& n) const {
    const ColumnDesc* c = Find(n);
    if (!c) throw TableError("Table column " + n + " is unknown");
    return *c;
  }
  const ColumnDesc& columnDesc(size_t i) const { return cols_.at(i); }
  const ColumnDesc& operator[](const std::string& n) const { return columnDesc(n); }
  const ColumnDesc& operator[](size_t i) const { return cols_.at(i); }
  ColumnDesc& rwColumnDesc(const std::string& n) { return const_cast<ColumnDesc&>(columnDesc(n)); }
  size_t ncolumn() const { return cols_.size(); }
  Vector<String> columnNames() const {
    std::vector<String> v;
    for (const auto& c : cols_) v.push_back(c.name());
    return Vector<String>(v);
  }
  void addColumn(const ColumnDesc& c, const std::string& name) {
    ColumnDesc d(c);
    d.setName(name);
    addColumn(d);
  }
  void addColumn(const ColumnDesc& c) {
    if (isColumn(c.name())) throw TableError("column " + c.name() + " already exists");
    cols_.push_back(c);
  }
  void removeColumn(const std::string& n) {
    for (size_t i = 0; i < cols_.size(); ++i)
      if (cols_[i].name() == n) {
        cols_.erase(cols_.begin() + i);
        return;
      }
    throw TableError("column " + n + " does not exist");
  }
  void renameColumn(const std::string& to, const std::string& from) { rwColumnDesc(from).setName(to); }
  template <class M>
  void adjustHypercolumns(const M&, bool = false, bool = false) {}
  String& comment() { return comment_; }
  const TableRecord& keywordSet() const { return keys_; }
  TableRecord& rwKeywordSet() { return keys_; }

 private:
  const ColumnDesc* Find(const std::string& n) const {
    for (const auto& c : cols_)
      if (c.name() == n) return &c;
    return nullptr;
  }
  std::vector<ColumnDesc> cols_;
  TableRecord keys_;
  String comment_;
};

namespace mini_detail {
struct Column {
  ColumnDesc desc;
  explicit Column(const ColumnDesc& d) : desc(d) {}
  virtual ~Column() = default;
  virtual void Resize(size_t n) = 0;
  virtual void RemoveRow(size_t i) = 0;
  virtual std::shared_ptr<Column> Clone(const std::vector<rownr_t>& rows) const = 0;
  virtual int Compare(size_t a, size_t b) const { return 0; }
  virtual double Number(size_t) const { throw TableError("column is not numeric"); }
  virtual bool IsString() const { return false; }
  virtual std::string Text(size_t) const { throw TableError("column is not a string"); }
  virtual void CopyCell(size_t to, const Column& from, size_t row) = 0;
};
template <class T>
struct Cell {
  T v{};
};
template <class T>
struct ScalarData : Column {
  using Column::Column;
  std::vector<Cell<T>> v;
  void Resize(size_t n) override { v.resize(n); }
  void RemoveRow(size_t i) override { v.erase(v.begin() + i); }
  std::shared_ptr<Column> Clone(const std::vector<rownr_t>& rows) const override {
    auto c = std::make_shared<ScalarData<T>>(desc);
    for (rownr_t r : rows) c->v.push_back(v.at(r));
    return c;
  }
  int Compare(size_t a, size_t b) const override {
    if constexpr (requires(T x) { x < x; }) {
      if (v[a].v < v[b].v) return -1;
      if (v[b].v < v[a].v) return 1;
    }
    return 0;
  }
  double Number(size_t i) const override {
    if constexpr (std::is_arithmetic_v<T>)
      return v.at(i).v;
    else
      throw TableError("column is not numeric");
  }
  bool IsString() const override { return std::is_same_v<T, String>; }
  std::string Text(size_t i) const override {
    if constexpr (std::is_same_v<T, String>)
      return v.at(i).v;
    else
      throw TableError("column is not a string");
  }
  void CopyCell(size_t to, const Column& from, size_t row) override {
    v.at(to) = dynamic_cast<const ScalarData<T>&>(from).v.at(row);
  }
};
template <class T>
struct ArrayData : Column {
  using Column::Column;
  struct Entry {
    bool defined = false;
    IPosition shape;
    std::vector<Cell<T>> v;
  };
  std::vector<Entry> v;
  void Resize(size_t n) override {
    const size_t old = v.size();
    v.resize(n);
    if (desc.isFixedShape())
      for (size_t i = old; i < n; ++i) {
        v[i].defined = true;
        v[i].shape = desc.shape();
        v[i].v.resize(desc.shape().product());
      }
  }
  void RemoveRow(size_t i) override { v.erase(v.begin() + i); }
  std::shared_ptr<Column> Clone(const std::vector<rownr_t>& rows) const override {
    auto c = std::make_shared<ArrayData<T>>(desc);
    for (rownr_t r : rows) c->v.push_back(v.at(r));
    return c;
  }
  void CopyCell(size_t to, const Column& from, size_t row) override {
    v.at(to) = dynamic_cast<const ArrayData<T>&>(from).v.at(row);
  }
};
inline std::shared_ptr<Column> MakeColumn(const ColumnDesc& d) {
#define MINI_CASE(tp, T)                                                     \
  case tp:                                                                  \
    if (d.isArray()) return std::make_shared<ArrayData<T>>(d);              \
    return std::make_shared<ScalarData<T>>(d);
  switch (d.dataType()) {
    MINI_CASE(TpBool, bool)
    MINI_CASE(TpUChar, uChar)
    MINI_CASE(TpShort, short)
    MINI_CASE(TpInt, int)
    MINI_CASE(TpUInt, unsigned)
    MINI_CASE(TpInt64, Int64)
    MINI_CASE(TpFloat, float)
    MINI_CASE(TpDouble, double)
    MINI_CASE(TpComplex, Complex)
    MINI_CASE(TpDComplex, DComplex)
    MINI_CASE(TpString, String)
    default: throw TableError("unsupported column type for " + d.name());
  }
#undef MINI_CASE
}
struct TableData : std::enable_shared_from_this<TableData> {
  std::string name;
  size_t nrow = 0;
  std::vector<std::shared_ptr<Column>> columns;
  TableRecord keys;
  bool marked_for_delete = false;
  // History for the checks.
  size_t flushes = 0;
  size_t flushed_rows = 0;
  int busy_thread = -1;
  int busy_depth = 0;
  Column* Find(const std::string& n) const {
    for (const auto& c : columns)
      if (c->desc.name() == n) return c.get();
    return nullptr;
  }
};
/// All tables on the simulated disk.
inline std::map<std::string, std::shared_ptr<TableData>>& Disk() {
  static std::map<std::string, std::shared_ptr<TableData>> disk;
  return disk;
}
/// Marks that the current thread is inside an operation on a table.
struct Access {
  TableData& t;
  Access(TableData& table, char op, const std::string& column = "") : t(table) {
    const int self = table_thread ? table_thread() : 0;
    if (t.busy_depth && t.busy_thread != self)
      MiniIndexError("two threads access the same table at the same time");
    t.busy_thread = self;
    ++t.busy_depth;
    if (table_hook) {
      try {
        table_hook(op, t.name, column);
      } catch (...) {
        --t.busy_depth;
        throw;
      }
    }
  }
  ~Access() { --t.busy_depth; }
};
struct Holder : TableHolder {
  std::shared_ptr<TableData> t;
};
}  // namespace mini_detail

class TableLock {
 public:
  enum LockOption { PermanentLocking, PermanentLockingWait, AutoLocking, UserLocking,
                    AutoNoReadLocking, UserNoReadLocking, NoLocking, DefaultLocking };
  TableLock(LockOption = AutoLocking) {}
};
class FileLocker {
 public:
  enum LockType { Read, Write };
};

/// A number, bool or string valued expression over the rows of a table or the
/// fields of a record.
class TableExprNode {
 public:
  typedef std::function<double(const Record*, rownr_t)> Fn;
  TableExprNode() {}
  TableExprNode(double v) : fn_([v](const Record*, rownr_t) { return v; }) {}
  TableExprNode(int v) : TableExprNode(double(v)) {}
  TableExprNode(const Fn& f) : fn_(f) {}
  typedef std::function<std::string(rownr_t)> StrFn;
  TableExprNode(const StrFn& f, int) : str_(f) {}
  template <class T>
  TableExprNode(const Array<T>& a) : set_(std::make_shared<Set>()) {
    for (const T& v : a) {
      if constexpr (std::is_arithmetic_v<T>)
        set_->numbers.insert(double(v));
      else
        set_->strings.insert(std::string(v));
    }
    is_set_ = true;
  }
  String getString(rownr_t i) const {
    if (!str_) throw AipsError("the expression is not a string");
    return str_(i);
  }
  TableExprNode in(const TableExprNode& set) const {
    TableExprNode self(*this);
    return TableExprNode(Fn([self, set](const Record* r, rownr_t row) -> double {
      if (!set.is_set_) throw AipsError("in: not a set");
      if (self.str_) return set.set_->strings.count(self.str_(row)) != 0;
      return set.set_->numbers.count(self.fn_(r, row)) != 0;
    }));
  }
  TableExprNode operator!() const {
    TableExprNode self(*this);
    return TableExprNode(Fn(
        [self](const Record* r, rownr_t row) -> double { return self.Eval(r, row) == 0; }));
  }
  bool isNull() const { return !fn_ && !str_ && !is_set_; }
  double Eval(const Record* r, rownr_t row) const { return fn_(r, row); }
  void get(const Record& r, double& v) const { v = fn_(&r, 0); }
  void get(const Record& r, bool& v) const { v = fn_(&r, 0) != 0; }
  void get(const Record& r, Int64& v) const { v = static_cast<Int64>(fn_(&r, 0)); }
  double getDouble(rownr_t row) const { return fn_(nullptr, row); }
  Int64 getInt(rownr_t row) const { return static_cast<Int64>(fn_(nullptr, row)); }
  bool getBool(rownr_t row) const { return fn_(nullptr, row) != 0; }
#define MINI_EXPR(op)                                                                      \
  friend TableExprNode operator op(const TableExprNode& a, const TableExprNode& b) {       \
    return TableExprNode([a, b](const Record* r, rownr_t i) -> double { return a.Eval(r, i) op b.Eval(r, i); }); \
  }
  MINI_EXPR(+)
  MINI_EXPR(-)
  MINI_EXPR(*)
  MINI_EXPR(==)
  MINI_EXPR(!=)
  MINI_EXPR(<)
  MINI_EXPR(<=)
  MINI_EXPR(>)
  MINI_EXPR(>=)
  MINI_EXPR(&&)
  MINI_EXPR(||)
  MINI_EXPR(/)
#undef MINI_EXPR
  // Not for a literal 0, which could also become a string.
  template <class T>
    requires std::is_base_of_v<std::string, T> || std::is_convertible_v<T, std::string_view>
  friend TableExprNode operator==(const TableExprNode& a, const T& text) {
    const String b(text);
    return TableExprNode(Fn([a, b](const Record*, rownr_t i) -> double { return a.getString(i) == b; }));
  }
  friend TableExprNode operator==(const TableExprNode& a, const Regex& b) {
    return TableExprNode(Fn([a, b](const Record*, rownr_t i) -> double { return a.getString(i).matches(b); }));
  }
  template <class T>
    requires std::is_base_of_v<std::string, T> || std::is_convertible_v<T, std::string_view>
  friend TableExprNode operator!=(const TableExprNode& a, const T& b) {
    return !(a == b);
  }
  friend TableExprNode operator!=(const TableExprNode& a, const Regex& b) { return !(a == b); }
  friend TableExprNode near(const TableExprNode& a, const TableExprNode& b, const TableExprNode& tol) {
    return TableExprNode(Fn([a, b, tol](const Record* r, rownr_t i) -> double {
      return near(a.Eval(r, i), b.Eval(r, i), tol.Eval(r, i));
    }));
  }

 private:
  struct Set {
    std::set<double> numbers;
    std::set<std::string> strings;
  };
  Fn fn_;
  StrFn str_;
  std::shared_ptr<Set> set_;
  bool is_set_ = false;
};

/// Arithmetic on numbers and record fields: + - * / ( ) and comparisons.
class RecordGram {
 public:
  static TableExprNode parse(const RecordInterface& rec, const std::string& s) {
    RecordGram g(dynamic_cast<const Record*>(&rec), s);
    TableExprNode n = g.Or();
    g.Skip();
    if (g.p_ != s.size()) throw AipsError("parse error in expression '" + s + "'");
    return n;
  }

 private:
  RecordGram(const Record* r, const std::string& s) : r_(r), s_(s) {}
  void Skip() {
    while (p_ < s_.size() && std::isspace(static_cast<unsigned char>(s_[p_]))) ++p_;
  }
  bool Take(const char* t) {
    Skip();
    const size_t n = std::strlen(t);
    if (s_.compare(p_, n, t) == 0) {
      p_ += n;
      return true;
    }
    return false;
  }
  TableExprNode Or() {
    TableExprNode a = And();
    while (Take("||")) a = a || And();
    return a;
  }
  TableExprNode And() {
    TableExprNode a = Compare();
    while (Take("&&")) a = a && Compare();
    return a;
  }
  TableExprNode Compare() {
    TableExprNode a = Sum();
    if (Take("==")) return a == Sum();
    if (Take("!=")) return a != Sum();
    if (Take("<=")) return a <= Sum();
    if (Take(">=")) return a >= Sum();
    if (Take("<")) return a < Sum();
    if (Take(">")) return a > Sum();
    return a;
  }
  TableExprNode Sum() {
    TableExprNode a = Product();
    for (;;) {
      if (Take("+"))
        a = a + Product();
      else if (Take("-"))
        a = a - Product();
      else
        return a;
    }
  }
  TableExprNode Product() {
    TableExprNode a = Unary();
    for (;;) {
      if (Take("*"))
        a = a * Unary();
      else if (Take("//"))
        a = Floor(a / Unary());
      else if (Take("/"))
        a = a / Unary();
      else
        return a;
    }
  }
  static TableExprNode Floor(const TableExprNode& a) {
    return TableExprNode(TableExprNode::Fn([a](const Record* r, rownr_t i) { return std::floor(a.Eval(r, i)); }));
  }
  TableExprNode Unary() {
    if (Take("-")) return TableExprNode(0.0) - Unary();
    if (Take("(")) {
      TableExprNode a = Or();
      if (!Take(")")) throw AipsError("missing ) in '" + s_ + "'");
      return a;
    }
    Skip();
    const char* c = s_.c_str() + p_;
    double v;
    const char* q = c;
    if (mini_detail::ParseNumber(q, v)) {
      p_ += q - c;
      // A unit may follow.
      size_t e = p_;
      while (e < s_.size() && std::isalpha(static_cast<unsigned char>(s_[e]))) ++e;
      if (e > p_) {
        double f;
        char d;
        if (!Unit::Lookup(s_.substr(p_, e - p_), f, d)) throw AipsError("unknown unit in '" + s_ + "'");
        v *= f;
        p_ = e;
      }
      return TableExprNode(v);
    }
    size_t e = p_;
    while (e < s_.size() && (std::isalnum(static_cast<unsigned char>(s_[e])) || s_[e] == '_')) ++e;
    if (e == p_) throw AipsError("parse error in expression '" + s_ + "'");
    const std::string name = s_.substr(p_, e - p_);
    p_ = e;
    if (!r_ || !r_->isDefined(name)) throw AipsError("unknown name " + name + " in '" + s_ + "'");
    return TableExprNode(TableExprNode::Fn([name](const Record* r, rownr_t) { return r->asDouble(name); }));
  }
  const Record* r_;
  const std::string& s_;
  size_t p_ = 0;
};

class Sort {
 public:
  enum Order { Descending = -1, Ascending = 1 };
  enum Option { DefaultSort = 0, QuickSort = 1, HeapSort = 2, InsSort = 4, ParSort = 8, NoDuplicates = 16 };
};

class RefRows {
 public:
  RefRows(rownr_t first, rownr_t last, rownr_t step = 1) {
    std::vector<rownr_t> v;
    for (rownr_t i = first; i <= last; i += step) v.push_back(i);
    v_ = Vector<rownr_t>(v);
  }
  RefRows(const Vector<rownr_t>& v, bool = false) : v_(v) {}
  const Vector<rownr_t>& rowVector() const { return v_; }
  Vector<rownr_t> convert() const { return v_; }
  rownr_t nrow() const { return v_.size(); }
  rownr_t nrows() const { return v_.size(); }

 private:
  Vector<rownr_t> v_;
};

class SetupNewTable;
class StorageOption {};
class TSMOption {
 public:
  enum Option { Cache, Buffer, MMap, Default };
  template <class... A>
  TSMOption(A...) {}
};
class TableInfo {
 public:
  static String type() { return ""; }
  void setType(const String&) {}
  void setSubType(const String&) {}
  void readmeAddLine(const String&) {}
};

class Table {
 public:
  enum TableOption { Old = 1, New, NewNoReplace, Scratch, Update, Delete };
  enum TableType { Plain, Memory };
  enum EndianFormat { BigEndian, LittleEndian, LocalEndian, AipsrcEndian };
  Table() {}
  Table(const std::string& name, TableOption = Old, const TSMOption& = TSMOption()) { Open(name); }
  Table(const std::string& name, const TableLock&, TableOption = Old) { Open(name); }
  Table(const std::string& name, TableLock::LockOption, TableOption = Old) { Open(name); }
  inline Table(SetupNewTable& s, rownr_t n = 0, bool = false, EndianFormat = LocalEndian);
  inline Table(SetupNewTable& s, TableType t, rownr_t n = 0, bool = false, EndianFormat = LocalEndian);
  inline Table(SetupNewTable& s, TableType t, StorageOption);
  inline Table(SetupNewTable& s, const TableLock&, rownr_t n = 0, bool = false, EndianFormat = LocalEndian);
  virtual ~Table() = default;
  Table(const Table&) = default;
  Table& operator=(const Table&) = default;

  bool isNull() const { return !d_; }
  bool isWritable() const { return true; }
  bool isRootTable() const { return !rows_; }
  static bool isReadable(const std::string& n, bool = false) { return mini_detail::Disk().count(Norm(n)) != 0; }
  static bool canDeleteTable(const std::string& n, bool = false) { return isReadable(n); }
  static void deleteTable(const std::string& n, bool = false) { mini_detail::Disk().erase(Norm(n)); }
  static bool isOpened(const std::string&) { return false; }
  rownr_t nrow() const { return rows_ ? rows_->size() : D().nrow; }
  String tableName() const { return D().name; }
  static Vector<String> getPartNames(bool = false) { return Vector<String>(); }
  void rename(const std::string& n, TableOption) {
    mini_detail::Disk().erase(D().name);
    D().name = Norm(n);
    mini_detail::Disk()[D().name] = d_;
  }
  void markForDelete() { mini_detail::Disk().erase(D().name); }
  void reopenRW() {}
  void flush(bool = false, bool = false) {
    mini_detail::Access a(D(), 'f');
    ++D().flushes;
    D().flushed_rows = D().nrow;
  }
  void resync() {}
  bool lock(bool = true) { return true; }
  bool lock(FileLocker::LockType, unsigned = 0) { return true; }
  void unlock() {}
  bool hasLock(FileLocker::LockType = FileLocker::Write) const { return true; }
  TableDesc tableDesc() const {
    TableDesc t;
    for (const auto& c : D().columns)
      if (!cols_ || cols_->count(c->desc.name())) t.addColumn(c->desc);
    t.rwKeywordSet() = D().keys;
    return t;
  }
  TableDesc actualTableDesc() const { return tableDesc(); }
  const TableRecord& keywordSet() const { return D().keys; }
  TableRecord& rwKeywordSet() { return D().keys; }
  bool canAddRow() const { return true; }
  bool canRemoveRow() const { return true; }
  void addRow(rownr_t n = 1, bool = true) {
    if (rows_) throw TableError("cannot add rows to a reference table");
    mini_detail::Access a(D(), 'a');
    D().nrow += n;
    for (auto& c : D().columns) c->Resize(D().nrow);
  }
  void removeRow(rownr_t i) {
    mini_detail::Access a(D(), 'w');
    if (rows_) {
      rows_ = std::make_shared<std::vector<rownr_t>>(*rows_);
      rows_->erase(rows_->begin() + i);
      return;
    }
    if (i >= D().nrow) throw TableError("removeRow: row does not exist");
    for (auto& c : D().columns) c->RemoveRow(i);
    --D().nrow;
  }
  void removeRow(const Vector<rownr_t>& v) {
    std::vector<rownr_t> r = v.tovector();
    std::sort(r.begin(), r.end());
    for (size_t i = r.size(); i-- > 0;) removeRow(r[i]);
  }
  void addColumn(const ColumnDesc& c, bool = true) { DoAdd(c); }
  void addColumn(const ColumnDesc& c, const std::string&, bool, bool = true) { DoAdd(c); }
  void addColumn(const ColumnDesc& c, const DataManager& dm, bool = true) { DoAdd(c, dm); }
  void addColumn(const TableDesc& t, const DataManager& dm, bool = true) {
    for (size_t i = 0; i < t.ncolumn(); ++i) DoAdd(t[i], dm);
  }
  void addColumn(const TableDesc& t, const Record& dm, bool = true) {
    for (size_t i = 0; i < t.ncolumn(); ++i) {
      ColumnDesc c = t[i];
      c.dataManagerType() = dm.asString("TYPE");
      c.dataManagerGroup() = dm.asString("NAME");
      DoAdd(c);
    }
  }
  void removeColumn(const std::string& n) {
    mini_detail::Access a(D(), 'w', n);
    auto& v = D().columns;
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i]->desc.name() == n) {
        v.erase(v.begin() + i);
        return;
      }
    throw TableError("removeColumn: no column " + n);
  }
  void removeColumn(const Vector<String>& v) {
    for (size_t i = 0; i < v.size(); ++i) removeColumn(v[i]);
  }
  void renameColumn(const std::string& to, const std::string& from) { Col(from).desc.setName(to); }
  bool canRemoveColumn(const std::string& n) const { return D().Find(n); }
  TableExprNode col(const std::string& n) const {
    auto d = d_;
    auto rows = rows_;
    if (!d->Find(n)) throw TableError("column " + n + " does not exist");
    if (d->Find(n)->IsString())
      return TableExprNode(TableExprNode::StrFn([d, rows, n](rownr_t i) {
        return d->Find(n)->Text(rows ? (*rows)[i] : i);
      }), 0);
    return TableExprNode(TableExprNode::Fn([d, rows, n](const Record*, rownr_t i) {
      return d->Find(n)->Number(rows ? (*rows)[i] : i);
    }));
  }
  Table operator()(const TableExprNode& e, rownr_t = 0, rownr_t = 0) const {
    Table r(*this);
    r.rows_ = std::make_shared<std::vector<rownr_t>>();
    for (rownr_t i = 0; i < nrow(); ++i)
      if (e.Eval(nullptr, i) != 0) r.rows_->push_back(Row(i));
    return r;
  }
  Table operator()(const std::vector<rownr_t>& v) const { return (*this)(Vector<rownr_t>(v)); }
  Table operator()(const Vector<rownr_t>& v) const {
    Table r(*this);
    r.rows_ = std::make_shared<std::vector<rownr_t>>();
    for (size_t i = 0; i < v.size(); ++i) {
      if (v[i] >= nrow()) throw TableError("row selection outside the table");
      r.rows_->push_back(Row(v[i]));
    }
    return r;
  }
  Table sort(const std::string& c, int order = Sort::Ascending, int option = 0) const {
    return sort(Block<String>(1, String(c)), order, option);
  }
  Table sort(const Block<String>& c, int order = Sort::Ascending, int option = 0) const {
    mini_detail::Access a(D(), 'r');
    Table r(*this);
    r.rows_ = std::make_shared<std::vector<rownr_t>>();
    for (rownr_t i = 0; i < nrow(); ++i) r.rows_->push_back(Row(i));
    std::vector<mini_detail::Column*> cols;
    for (size_t i = 0; i < c.size(); ++i) cols.push_back(&Col(c[i]));
    auto cmp = [&](rownr_t x, rownr_t y) {
      for (auto* k : cols) {
        const int v = k->Compare(x, y) * order;
        if (v) return v;
      }
      return 0;
    };
    std::stable_sort(r.rows_->begin(), r.rows_->end(),
                     [&](rownr_t x, rownr_t y) { return cmp(x, y) < 0; });
    if (option & Sort::NoDuplicates)
      r.rows_->erase(std::unique(r.rows_->begin(), r.rows_->end(),
                                 [&](rownr_t x, rownr_t y) { return cmp(x, y) == 0; }),
                     r.rows_->end());
    return r;
  }
  Table project(const Block<String>& c) const {
    Table r(*this);
    r.cols_ = std::make_shared<std::set<std::string>>();
    for (size_t i = 0; i < c.size(); ++i) {
      if (!D().Find(c[i])) throw TableError("project: column " + c[i] + " does not exist");
      r.cols_->insert(c[i]);
    }
    return r;
  }
  Vector<rownr_t> rowNumbers() const {
    std::vector<rownr_t> v;
    for (rownr_t i = 0; i < nrow(); ++i) v.push_back(Row(i));
    return Vector<rownr_t>(v);
  }
  Vector<rownr_t> rowNumbers(const Table& t, bool = false) const {
    std::vector<rownr_t> v;
    if (!t.rows_) return rowNumbers();
    std::map<rownr_t, rownr_t> inverse;
    for (rownr_t i = 0; i < t.nrow(); ++i) inverse[t.Row(i)] = i;
    for (rownr_t i = 0; i < nrow(); ++i) v.push_back(inverse.at(Row(i)));
    return Vector<rownr_t>(v);
  }
  void deepCopy(const std::string& n, TableOption = New, bool = false, EndianFormat = LocalEndian,
                bool = false) const {
    mini_detail::Access a(D(), 'r');
    auto t = std::make_shared<mini_detail::TableData>();
    t->name = Norm(n);
    t->keys = D().keys;
    t->nrow = nrow();
    std::vector<rownr_t> rows;
    for (rownr_t i = 0; i < nrow(); ++i) rows.push_back(Row(i));
    for (const auto& c : D().columns)
      if (!cols_ || cols_->count(c->desc.name())) t->columns.push_back(c->Clone(rows));
    mini_detail::Disk()[t->name] = t;
  }
  void copy(const std::string& n, TableOption o, bool = false) const { deepCopy(n, o); }
  Record dataManagerInfo() const {
    Record r, sub;
    sub.define("TYPE", "StandardStMan");
    sub.define("NAME", "SSM");
    std::vector<String> names;
    for (const auto& c : D().columns)
      if (!cols_ || cols_->count(c->desc.name())) names.push_back(c->desc.name());
    sub.define("COLUMNS", Vector<String>(names));
    r.defineRecord("*1", sub);
    return r;
  }
  TableInfo& tableInfo() {
    static TableInfo i;
    return i;
  }

  // For the stand-in itself and the harnesses.
  mini_detail::TableData& D() const {
    if (!d_) throw TableError("the table object is null");
    return *d_;
  }
  std::shared_ptr<mini_detail::TableData> Data() const { return d_; }
  static Table FromData(std::shared_ptr<mini_detail::TableData> d) {
    Table t;
    t.d_ = std::move(d);
    return t;
  }
  rownr_t Row(rownr_t i) const {
    if (i >= nrow()) throw TableError("row number exceeds the number of rows");
    return rows_ ? (*rows_)[i] : i;
  }
  mini_detail::Column& Col(const std::string& n) const {
    mini_detail::Column* c = D().Find(n);
    if (!c || (cols_ && !cols_->count(n))) throw TableError("Table column " + n + " is unknown");
    return *c;
  }
  static std::string Norm(std::string n) {
    const size_t p = n.find("::");
    if (p != std::string::npos) n.replace(p, 2, "/");
    while (n.size() > 1 && n.back() == '/') n.pop_back();
    const std::string cwd = Path::Cwd() + "/";
    if (n.compare(0, cwd.size(), cwd) == 0) n.erase(0, cwd.size());
    return n;
  }

 protected:
  void Open(const std::string& name) {
    auto it = mini_detail::Disk().find(Norm(name));
    if (it == mini_detail::Disk().end()) throw TableNoFile("Table " + name + " does not exist");
    d_ = it->second;
    mini_detail::Access a(*d_, 'o');
  }
  void DoAdd(const ColumnDesc& c) {
    mini_detail::Access a(D(), 'w', c.name());
    if (D().Find(c.name())) throw TableError("addColumn: column " + c.name() + " already exists");
    auto col = mini_detail::MakeColumn(c);
    col->Resize(D().nrow);
    D().columns.push_back(col);
  }
  void DoAdd(ColumnDesc c, const DataManager& dm) {
    c.dataManagerType() = dm.dataManagerType();
    c.dataManagerGroup() = dm.dataManagerName();
    DoAdd(c);
  }
  std::shared_ptr<mini_detail::TableData> d_;
  std::shared_ptr<std::vector<rownr_t>> rows_;
  std::shared_ptr<std::set<std::string>> cols_;
  friend class TableIterator;
};

class SetupNewTable {
 public:
  template <class O>
  SetupNewTable(const std::string& name, const TableDesc& d, O option) : name_(Table::Norm(name)), desc_(d) {
    if (int(option) == int(Table::NewNoReplace) && Table::isReadable(name_))
      throw TableError("Table " + name_ + " already exists");
  }
  void bindAll(const DataManager&, bool = false) {}
  void bindCreate(const Record&) {}
  template <class X>
  void bindColumn(const std::string&, const X&) {}
  void setShapeColumn(const std::string& n, const IPosition& s) { desc_.rwColumnDesc(n).setShape(s); }
  const std::string& name() const { return name_; }
  const TableDesc& desc() const { return desc_; }

 private:
  std::string name_;
  TableDesc desc_;
};
inline Table::Table(SetupNewTable& s, TableType type, rownr_t n, bool, EndianFormat) {
  d_ = std::make_shared<mini_detail::TableData>();
  d_->name = s.name();
  d_->keys = s.desc().keywordSet();
  for (size_t i = 0; i < s.desc().ncolumn(); ++i)
    d_->columns.push_back(mini_detail::MakeColumn(s.desc()[i]));
  mini_detail::Access a(*d_, 'c');
  if (type == Plain && !s.name().empty()) {
    // A table that replaces another one replaces its subtables too.
    const std::string prefix = s.name() + "/";
    for (auto it = mini_detail::Disk().begin(); it != mini_detail::Disk().end();)
      it = it->first.rfind(prefix, 0) == 0 ? mini_detail::Disk().erase(it) : std::next(it);
    mini_detail::Disk()[s.name()] = d_;
  }
  d_->nrow = n;
  for (auto& c : d_->columns) c->Resize(n);
}
inline Table::Table(SetupNewTable& s, rownr_t n, bool, EndianFormat) : Table(s, Plain, n) {}
inline Table::Table(SetupNewTable& s, TableType t, StorageOption) : Table(s, t, 0) {}
inline Table::Table(SetupNewTable& s, const TableLock&, rownr_t n, bool, EndianFormat) : Table(s, Plain, n) {}

inline void TableRecord::defineTable(const std::string& n, const Table& t) {
  auto h = std::make_shared<mini_detail::Holder>();
  h->t = t.Data();
  Put(n, std::shared_ptr<mini_detail::TableHolder>(h));
}
inline Table TableRecord::asTable(const std::string& n) const {
  const Value& v = Get(n);
  auto p = std::get_if<std::shared_ptr<mini_detail::TableHolder>>(&v);
  if (!p) throw TableError("keyword " + n + " is not a table");
  return Table::FromData(static_cast<mini_detail::Holder&>(**p).t);
}
inline Table TableRecord::asTable(int i) const { return asTable(name(i)); }

/// The rows that have given values in some columns.
class ColumnsIndex {
 public:
  ColumnsIndex(const Table& t, const String& column, bool = false) : ColumnsIndex(t, Vector<String>(std::vector<String>{column})) {}
  ColumnsIndex(const Table& t, const Vector<String>& columns, bool = false) : t_(t) {
    for (size_t i = 0; i < columns.size(); ++i) {
      names_.push_back(columns[i]);
      t_.Col(names_.back());
      key_.define(names_.back(), 0);
    }
    mini_detail::Access a(t_.D(), 'r');
  }
  Record& accessKey() { return key_; }
  Vector<rownr_t> getRowNumbers() {
    std::vector<rownr_t> v;
    for (rownr_t i = 0; i < t_.nrow(); ++i) {
      bool same = true;
      for (const String& n : names_) {
        const auto& c = t_.Col(n);
        same = same && (c.IsString() ? c.Text(t_.Row(i)) == key_.asString(n) : c.Number(t_.Row(i)) == key_.asDouble(n));
      }
      if (same) v.push_back(i);
    }
    return Vector<rownr_t>(v);
  }
  Vector<rownr_t> getRowNumbers(const Record& key) {
    key_ = key;
    return getRowNumbers();
  }

 private:
  Table t_;
  std::vector<String> names_;
  Record key_;
};

class TableLocker {
 public:
  TableLocker(Table&, FileLocker::LockType = FileLocker::Write, unsigned = 0) {}
};
class TableCopy {
 public:
  static void copyInfo(Table& out, const Table& in) {
    const TableRecord& k = in.keywordSet();
    for (size_t i = 0; i < k.nfields(); ++i)
      if (k.type(i) != TpTable) out.rwKeywordSet().Put(k.name(i), k.Get(k.name(i)));
  }
  static void copyRows(Table& out, const Table& in, bool = false) {
    if (out.nrow() < in.nrow()) out.addRow(in.nrow() - out.nrow());
    for (auto& c : out.D().columns)
      if (auto* f = in.D().Find(c->desc.name()))
        for (rownr_t i = 0; i < in.nrow(); ++i) c->CopyCell(out.Row(i), *f, in.Row(i));
  }
  static void copySubTables(Table& out, const Table& in, bool = false, const Block<String>& omit = Block<String>()) {
    const TableRecord& k = in.keywordSet();
    auto omitted = [&](const String& n) {
      for (size_t i = 0; i < omit.size(); ++i)
        if (omit[i] == n) return true;
      return false;
    };
    for (size_t i = 0; i < k.nfields(); ++i)
      if (k.type(i) == TpTable && !omitted(k.name(i))) {
        const std::string n = out.tableName() + "/" + k.name(i);
        k.asTable(int(i)).deepCopy(n);
        out.rwKeywordSet().defineTable(k.name(i), Table(n));
      }
  }
};
class TableMeasRefDesc {
 public:
  template <class... A>
  explicit TableMeasRefDesc(const A&...) {}
};
class TableMeasValueDesc {
 public:
  TableMeasValueDesc(const TableDesc&, const std::string&) {}
};
template <class M>
class TableMeasDesc {
 public:
  TableMeasDesc(const TableMeasValueDesc&, const TableMeasRefDesc&) {}
  void write(TableDesc&) {}
};
/// Copies whole rows.
class TableRow {
 public:
  struct Values {
    std::map<std::string, std::pair<std::shared_ptr<mini_detail::Column>, rownr_t>> cells;
  };
  explicit TableRow(const Table& t, bool = false) : t_(t) {}
  Values get(rownr_t i) const {
    mini_detail::Access a(t_.D(), 'r');
    Values v;
    for (auto& c : t_.D().columns) v.cells[c->desc.name()] = {c->Clone({t_.Row(i)}), 0};
    return v;
  }
  void put(rownr_t i, const Values& v) {
    mini_detail::Access a(t_.D(), 'w');
    for (auto& c : t_.D().columns) {
      auto it = v.cells.find(c->desc.name());
      if (it != v.cells.end()) c->CopyCell(t_.Row(i), *it->second.first, 0);
    }
  }

 private:
  Table t_;
};
typedef TableRow ROTableRow;
class DataManInfo {
 public:
  static Record adjustStMan(const Record& r, const std::string&, bool = true) { return r; }
  static void setTiledStMan(Record&, const Vector<String>&, const std::string&, const std::string&,
                            const IPosition&) {}
  static Vector<String> removeDminfoColumns(Record&, const Vector<String>& v, const std::string& = "") { return v; }
};

class TableColumn {
 public:
  TableColumn() {}
  TableColumn(const Table& t, const std::string& n) : t_(t), n_(n) { t_.Col(n_); }
  bool isNull() const { return t_.isNull(); }
  rownr_t nrow() const { return t_.nrow(); }
  const ColumnDesc& columnDesc() const { return t_.Col(n_).desc; }
  const TableRecord& keywordSet() const { return t_.Col(n_).desc.keywordSet(); }
  TableRecord& rwKeywordSet() { return t_.Col(n_).desc.rwKeywordSet(); }
  Table table() const { return t_; }

 protected:
  Table t_;
  std::string n_;
};
template <class T>
class ScalarColumn : public TableColumn {
 public:
  ScalarColumn() {}
  ScalarColumn(const Table& t, const std::string& n) : TableColumn(t, n) { C(); }
  void attach(const Table& t, const std::string& n) { *this = ScalarColumn(t, n); }
  T get(rownr_t i) const {
    mini_detail::Access a(t_.D(), 'r', n_);
    return C().v.at(t_.Row(i)).v;
  }
  void get(rownr_t i, T& v) const { v = get(i); }
  T operator()(rownr_t i) const { return get(i); }
  Vector<T> getColumn() const {
    mini_detail::Access a(t_.D(), 'r', n_);
    Vector<T> r(t_.nrow());
    for (rownr_t i = 0; i < t_.nrow(); ++i) r[i] = C().v.at(t_.Row(i)).v;
    return r;
  }
  void getColumn(Vector<T>& v, bool resize = false) const {
    if (resize || v.empty()) v.resize(t_.nrow());
    v = getColumn();
  }
  void put(rownr_t i, const T& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    C().v.at(t_.Row(i)).v = v;
  }
  void putColumn(const Vector<T>& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    if (v.size() != t_.nrow()) throw TableError("putColumn: conformance error for " + n_);
    for (rownr_t i = 0; i < t_.nrow(); ++i) C().v.at(t_.Row(i)).v = v[i];
  }
  void putColumn(const ScalarColumn& o) { putColumn(o.getColumn()); }
  void fillColumn(const T& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    for (rownr_t i = 0; i < t_.nrow(); ++i) C().v.at(t_.Row(i)).v = v;
  }
  Vector<T> getColumnCells(const RefRows& r) const {
    Vector<T> v(r.nrow());
    for (size_t i = 0; i < v.size(); ++i) v[i] = get(r.rowVector()[i]);
    return v;
  }
  void putColumnCells(const RefRows& r, const Vector<T>& v) {
    for (size_t i = 0; i < v.size(); ++i) put(r.rowVector()[i], v[i]);
  }

 private:
  mini_detail::ScalarData<T>& C() const {
    auto* c = dynamic_cast<mini_detail::ScalarData<T>*>(&t_.Col(n_));
    if (!c) throw TableError("column " + n_ + " has another type");
    return *c;
  }
};
#define ROScalarColumn ScalarColumn

template <class T>
class ArrayColumn : public TableColumn {
 public:
  ArrayColumn() {}
  ArrayColumn(const Table& t, const std::string& n) : TableColumn(t, n) { C(); }
  void attach(const Table& t, const std::string& n) { *this = ArrayColumn(t, n); }
  bool isDefined(rownr_t i) const { return C().v.at(t_.Row(i)).defined; }
  IPosition shape(rownr_t i) const { return E(i).shape; }
  size_t ndim(rownr_t i) const { return E(i).shape.size(); }
  void setShape(rownr_t i, const IPosition& s) {
    auto& e = C().v.at(t_.Row(i));
    e.defined = true;
    e.shape = s;
    e.v.resize(s.product());
  }
  Array<T> get(rownr_t i) const {
    mini_detail::Access a(t_.D(), 'r', n_);
    return Cell(i);
  }
  void get(rownr_t i, Array<T>& v, bool resize = false) const {
    Array<T> a = get(i);
    if (resize && v.shape() != a.shape()) v.resize(a.shape());
    v = a;
  }
  Array<T> operator()(rownr_t i) const { return get(i); }
  Array<T> getSlice(rownr_t i, const Slicer& s) const { return get(i)(s).copy(); }
  Array<T> getColumn() const {
    mini_detail::Access a(t_.D(), 'r', n_);
    Array<T> r(ColShape(nullptr, t_.nrow()));
    T* p = r.data();
    for (rownr_t i = 0; i < t_.nrow(); ++i) Append(p, Cell(i), r, i);
    return r;
  }
  void getColumn(Array<T>& v, bool resize = false) const { Assign(v, getColumn(), resize); }
  Array<T> getColumn(const Slicer& s) const {
    mini_detail::Access a(t_.D(), 'r', n_);
    Array<T> r(ColShape(&s, t_.nrow()));
    T* p = r.data();
    for (rownr_t i = 0; i < t_.nrow(); ++i) Append(p, Cell(i)(s), r, i);
    return r;
  }
  void getColumn(const Slicer& s, Array<T>& v, bool resize = false) const { Assign(v, getColumn(s), resize); }
  Array<T> getColumnCells(const RefRows& rows) const {
    return ArrayColumn(t_(rows.rowVector()), n_).getColumn();
  }
  void getColumnCells(const RefRows& rows, Array<T>& v, bool resize = false) const {
    Assign(v, getColumnCells(rows), resize);
  }
  Array<T> getColumnCells(const RefRows& rows, const Slicer& s) const {
    return ArrayColumn(t_(rows.rowVector()), n_).getColumn(s);
  }
  void getColumnCells(const RefRows& rows, const Slicer& s, Array<T>& v, bool resize = false) const {
    Assign(v, getColumnCells(rows, s), resize);
  }
  void put(rownr_t i, const Array<T>& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    Store(i, v);
  }
  void putSlice(rownr_t i, const Slicer& s, const Array<T>& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    Array<T> c = Cell(i);
    c(s) = v;
    Store(i, c);
  }
  void putColumn(const Array<T>& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    if (v.ndim() == 0 || static_cast<rownr_t>(v.shape()[v.ndim() - 1]) != t_.nrow())
      throw TableError("putColumn: conformance error for " + n_);
    for (rownr_t i = 0; i < t_.nrow(); ++i) Store(i, v[i]);
  }
  void putColumn(const Slicer& s, const Array<T>& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    if (v.ndim() == 0 || static_cast<rownr_t>(v.shape()[v.ndim() - 1]) != t_.nrow())
      throw TableError("putColumn: conformance error for " + n_);
    for (rownr_t i = 0; i < t_.nrow(); ++i) {
      Array<T> c = Cell(i);
      c(s) = v[i];
      Store(i, c);
    }
  }
  void putColumn(const ArrayColumn& o) {
    mini_detail::Access a(t_.D(), 'w', n_);
    for (rownr_t i = 0; i < t_.nrow(); ++i)
      if (o.isDefined(i)) Store(i, o.get(i));
  }
  void putColumnCells(const RefRows& rows, const Array<T>& v) {
    ArrayColumn(t_(rows.rowVector()), n_).putColumn(v);
  }
  void putColumnCells(const RefRows& rows, const Slicer& s, const Array<T>& v) {
    ArrayColumn(t_(rows.rowVector()), n_).putColumn(s, v);
  }
  void fillColumn(const Array<T>& v) {
    mini_detail::Access a(t_.D(), 'w', n_);
    for (rownr_t i = 0; i < t_.nrow(); ++i) Store(i, v);
  }

 private:
  mini_detail::ArrayData<T>& C() const {
    auto* c = dynamic_cast<mini_detail::ArrayData<T>*>(&t_.Col(n_));
    if (!c) throw TableError("column " + n_ + " has another type");
    return *c;
  }
  const typename mini_detail::ArrayData<T>::Entry& E(rownr_t i) const {
    const auto& e = C().v.at(t_.Row(i));
    if (!e.defined) throw TableError("no array in row of column " + n_);
    return e;
  }
  Array<T> Cell(rownr_t i) const {
    const auto& e = E(i);
    Array<T> r(e.shape);
    for (size_t k = 0; k < e.v.size(); ++k) r.data()[k] = e.v[k].v;
    return r;
  }
  void Store(rownr_t i, const Array<T>& v) {
    auto& c = C();
    auto& e = c.v.at(t_.Row(i));
    if (c.desc.isFixedShape() && c.desc.shape() != v.shape())
      throw TableError("put: shape does not match the fixed shape of column " + n_);
    e.defined = true;
    e.shape = v.shape();
    e.v.resize(v.nelements());
    size_t k = 0;
    v.ForEach([&](const T& x) { e.v[k++].v = x; });
  }
  IPosition ColShape(const Slicer* s, rownr_t n) const {
    IPosition r;
    if (n > 0) r = s ? Cell(0)(*s).shape() : E(0).shape;
    r.append(IPosition(1, n));
    return r;
  }
  static void Append(T*& p, const Array<T>& cell, const Array<T>& whole, rownr_t) {
    if (cell.nelements() * whole.shape()[whole.ndim() - 1] != whole.nelements())
      throw TableError("getColumn: rows have different shapes");
    cell.ForEach([&](const T& x) { *p++ = x; });
  }
  void Assign(Array<T>& v, const Array<T>& r, bool resize) const {
    if (v.shape() != r.shape()) {
      if (!resize && v.nelements() != 0) throw TableError("getColumn: array does not conform to column " + n_);
      v.resize(r.shape());
    }
    v = r;
  }
};
#define ROArrayColumn ArrayColumn

class TableIterator {
 public:
  enum Order { Descending = -1, Ascending = 1 };
  enum Option { QuickSort = 1, HeapSort = 2, InsSort = 4, ParSort = 8, NoSort = 64 };
  TableIterator() {}
  TableIterator(const Table& t, const Block<String>& cols, Order order = Ascending, Option option = ParSort) {
    t_ = option == NoSort ? t : t.sort(cols, order);
    for (size_t i = 0; i < cols.size(); ++i) cols_.push_back(cols[i]);
    Find();
  }
  TableIterator(const Table& t, const std::string& col, Order order = Ascending, Option option = ParSort)
      : TableIterator(t, Block<String>(1, String(col)), order, option) {}
  bool isNull() const { return t_.isNull(); }
  void reset() {
    b_ = 0;
    Find();
  }
  bool pastEnd() const { return t_.isNull() || b_ >= t_.nrow(); }
  void next() {
    b_ = e_;
    Find();
  }
  TableIterator& operator++() {
    next();
    return *this;
  }
  void operator++(int) { next(); }
  Table table() const { return cur_; }

 private:
  void Find() {
    cur_ = t_;
    cur_.rows_ = std::make_shared<std::vector<rownr_t>>();
    e_ = b_;
    if (b_ >= t_.nrow()) return;
    while (e_ < t_.nrow()) {
      bool same = true;
      for (const auto& c : cols_)
        if (t_.Col(c).Compare(t_.Row(b_), t_.Row(e_)) != 0) same = false;
      if (!same) break;
      cur_.rows_->push_back(t_.Row(e_));
      ++e_;
    }
  }
  Table t_, cur_;
  std::vector<std::string> cols_;
  rownr_t b_ = 0, e_ = 0;
};

// Measure columns keep their values as plain doubles.
namespace mini_detail {
inline std::vector<double> ToDoubles(const MDirection& m) { return {m.getValue().getLong(), m.getValue().getLat()}; }
inline std::vector<double> ToDoubles(const MPosition& m) {
  return {m.getValue()(0), m.getValue()(1), m.getValue()(2)};
}
inline std::vector<double> ToDoubles(const MEpoch& m) { return {m.getValue().get() * 86400}; }
inline void FromDoubles(const double* p, MDirection& m) { m = MDirection(MVDirection(p[0], p[1])); }
inline void FromDoubles(const double* p, MPosition& m) { m = MPosition(MVPosition(p[0], p[1], p[2])); }
inline void FromDoubles(const double* p, MEpoch& m) { m = MEpoch(MVEpoch(p[0] / 86400)); }
}  // namespace mini_detail
template <class M>
class ScalarMeasColumn {
 public:
  ScalarMeasColumn() {}
  ScalarMeasColumn(const Table& t, const std::string& n) : t_(t), n_(n) { t_.Col(n); }
  void attach(const Table& t, const std::string& n) { *this = ScalarMeasColumn(t, n); }
  bool isNull() const { return n_.empty(); }
  M operator()(rownr_t i) const {
    M m;
    if constexpr (std::is_same_v<M, MEpoch>) {
      const double d = ScalarColumn<double>(t_, n_)(i);
      mini_detail::FromDoubles(&d, m);
    } else {
      Array<double> a = ArrayColumn<double>(t_, n_)(i);
      mini_detail::FromDoubles(a.data(), m);
    }
    return m;
  }
  M convert(rownr_t i, unsigned) const { return (*this)(i); }
  void get(rownr_t i, M& m) const { m = (*this)(i); }
  void put(rownr_t i, const M& m) {
    const auto v = mini_detail::ToDoubles(m);
    if constexpr (std::is_same_v<M, MEpoch>)
      ScalarColumn<double>(t_, n_).put(i, v[0]);
    else
      ArrayColumn<double>(t_, n_).put(i, Vector<double>(v));
  }
  void setDescRefCode(unsigned, bool = true) {}

 private:
  Table t_;
  std::string n_;
};
template <class M>
class ArrayMeasColumn {
 public:
  ArrayMeasColumn() {}
  ArrayMeasColumn(const Table& t, const std::string& n) : t_(t), n_(n) { t_.Col(n); }
  Vector<M> operator()(rownr_t i) const {
    Array<double> a = ArrayColumn<double>(t_, n_)(i);
    const size_t per = mini_detail::ToDoubles(M()).size();
    Vector<M> v(a.nelements() / per);
    for (size_t k = 0; k < v.size(); ++k) mini_detail::FromDoubles(a.data() + k * per, v[k]);
    return v;
  }
  void put(rownr_t i, const Vector<M>& v) {
    const size_t per = mini_detail::ToDoubles(M()).size();
    Matrix<double> a(per, v.size());
    for (size_t k = 0; k < v.size(); ++k) {
      const auto d = mini_detail::ToDoubles(v[k]);
      std::copy(d.begin(), d.end(), a.data() + k * per);
    }
    ArrayColumn<double>(t_, n_).put(i, a);
  }
  void setDescRefCode(unsigned, bool = true) {}

 private:
  Table t_;
  std::string n_;
};

// ---------------------------------------------------------------- MS
class MSMainEnums {
 public:
  enum PredefinedColumns { UNDEFINED_COLUMN, ANTENNA1, ANTENNA2, ARRAY_ID, CORRECTED_DATA, DATA,
                           DATA_DESC_ID, EXPOSURE, FEED1, FEED2, FIELD_ID, FLAG, FLAG_CATEGORY,
                           FLAG_ROW, INTERVAL, MODEL_DATA, OBSERVATION_ID, PROCESSOR_ID,
                           SCAN_NUMBER, SIGMA, SIGMA_SPECTRUM, STATE_ID, TIME, TIME_CENTROID, UVW,
                           WEIGHT, WEIGHT_SPECTRUM, IMAGING_WEIGHT, NUMBER_PREDEFINED_COLUMNS };
  enum PredefinedKeywords { ANTENNA = 100, DATA_DESCRIPTION, FEED, FIELD, FLAG_CMD, HISTORY,
                            OBSERVATION, POINTING, POLARIZATION, PROCESSOR, SPECTRAL_WINDOW, STATE, SOURCE };
  static const String& columnName(PredefinedColumns c) {
    static const String names[] = {
        "", "ANTENNA1", "ANTENNA2", "ARRAY_ID", "CORRECTED_DATA", "DATA", "DATA_DESC_ID",
        "EXPOSURE", "FEED1", "FEED2", "FIELD_ID", "FLAG", "FLAG_CATEGORY", "FLAG_ROW", "INTERVAL",
        "MODEL_DATA", "OBSERVATION_ID", "PROCESSOR_ID", "SCAN_NUMBER", "SIGMA", "SIGMA_SPECTRUM",
        "STATE_ID", "TIME", "TIME_CENTROID", "UVW", "WEIGHT", "WEIGHT_SPECTRUM", "IMAGING_WEIGHT"};
    return names[c];
  }
  static String keywordName(PredefinedKeywords k) {
    static const char* names[] = {"ANTENNA", "DATA_DESCRIPTION", "FEED", "FIELD", "FLAG_CMD",
                                  "HISTORY", "OBSERVATION", "POINTING", "POLARIZATION",
                                  "PROCESSOR", "SPECTRAL_WINDOW", "STATE", "SOURCE"};
    return names[int(k) - 100];
  }
};
namespace mini_detail {
/// One column per name; the letters give their types.
inline TableDesc MakeDesc(const char* names, const char* types) {
  TableDesc t;
  std::stringstream ss(names);
  std::string part;
  for (const char* k = types; *k && std::getline(ss, part, ','); ++k) {
    String n(part);
    n.trim();
    switch (*k) {
      case 's': t.addColumn(ScalarColumnDesc<String>(n)); break;
      case 'i': t.addColumn(ScalarColumnDesc<int>(n)); break;
      case 'd': t.addColumn(ScalarColumnDesc<double>(n)); break;
      case 'b': t.addColumn(ScalarColumnDesc<bool>(n)); break;
      case 'D': t.addColumn(ArrayColumnDesc<double>(n)); break;
      case 'V': t.addColumn(ArrayColumnDesc<double>(n, IPosition(1, 3))); break;
      case 'I': t.addColumn(ArrayColumnDesc<int>(n)); break;
      case 'S': t.addColumn(ArrayColumnDesc<String>(n)); break;
      case 'B': t.addColumn(ArrayColumnDesc<bool>(n)); break;
      case 'F': t.addColumn(ArrayColumnDesc<float>(n)); break;
      case 'X': t.addColumn(ArrayColumnDesc<Complex>(n)); break;
    }
  }
  return t;
}
}  // namespace mini_detail
/// The letters describe the required columns, which come first.
#define MINI_SUBTABLE(cls, types, ...)                                       \
  class cls##Enums {                                                        \
   public:                                                                  \
    enum PredefinedColumns { __VA_ARGS__ };                                 \
    static const char* Names() { return #__VA_ARGS__; }                     \
  };                                                                        \
  class cls : public Table, public cls##Enums {                             \
   public:                                                                  \
    cls() {}                                                                \
    cls(const Table& t) : Table(t) {}                                       \
    cls(SetupNewTable& t, rownr_t n = 0) : Table(t, n) {}                   \
    cls(const std::string& n, TableOption o = Old) : Table(n, o) {}         \
    static String columnName(PredefinedColumns c) {                         \
      std::stringstream ss(Names());                                        \
      std::string part;                                                     \
      for (int i = 0; i <= int(c); ++i) std::getline(ss, part, ',');        \
      String s(part);                                                       \
      s.trim();                                                             \
      return s;                                                             \
    }                                                                       \
    static TableDesc requiredTableDesc() { return mini_detail::MakeDesc(Names(), types); } \
  };
MINI_SUBTABLE(MSAntenna, "ssssVVdb", NAME, STATION, TYPE, MOUNT, POSITION, OFFSET, DISH_DIAMETER, FLAG_ROW)
MINI_SUBTABLE(MSDataDescription, "iib", SPECTRAL_WINDOW_ID, POLARIZATION_ID, FLAG_ROW)
MINI_SUBTABLE(MSPolarization, "iIIb", NUM_CORR, CORR_TYPE, CORR_PRODUCT, FLAG_ROW)
MINI_SUBTABLE(MSSpectralWindow, "isdDDiDDdbisii", NUM_CHAN, NAME, REF_FREQUENCY, CHAN_FREQ, CHAN_WIDTH,
              MEAS_FREQ_REF, EFFECTIVE_BW, RESOLUTION, TOTAL_BANDWIDTH, FLAG_ROW, FREQ_GROUP, FREQ_GROUP_NAME,
              IF_CONV_CHAIN, NET_SIDEBAND)
MINI_SUBTABLE(MSField, "ssdiDDDib", NAME, CODE, TIME, NUM_POLY, DELAY_DIR, PHASE_DIR, REFERENCE_DIR, SOURCE_ID, FLAG_ROW)
MINI_SUBTABLE(MSObservation, "sDsSsSsdb", TELESCOPE_NAME, TIME_RANGE, OBSERVER, LOG, SCHEDULE_TYPE, SCHEDULE,
              PROJECT, RELEASE_DATE, FLAG_ROW)
MINI_SUBTABLE(MSFeed, "iiidiiDSXDDd", ANTENNA_ID, FEED_ID, SPECTRAL_WINDOW_ID, TIME, NUM_RECEPTORS, BEAM_ID, BEAM_OFFSET,
              POLARIZATION_TYPE, POL_RESPONSE, POSITION, RECEPTOR_ANGLE, INTERVAL)
MINI_SUBTABLE(MSHistory, "dsssisSS", TIME, MESSAGE, PRIORITY, ORIGIN, OBSERVATION_ID, APPLICATION, APP_PARAMS, CLI_COMMAND, OBJECT_ID)
MINI_SUBTABLE(MSSource, "idiiisisDD", SOURCE_ID, TIME, INTERVAL_, SPECTRAL_WINDOW_ID, NUM_LINES, NAME, CALIBRATION_GROUP,
              CODE, DIRECTION, PROPER_MOTION, REST_FREQUENCY, INTERVAL, POSITION)
#undef MINI_SUBTABLE
class MeasurementSet : public Table, public MSMainEnums {
 public:
  MeasurementSet() {}
  MeasurementSet(const Table& t) : Table(t) {}
  MeasurementSet(const std::string& n, TableOption o = Old) : Table(n, o) {}
  MeasurementSet(const std::string& n, const TableLock& l, TableOption o = Old) : Table(n, l, o) {}
  MeasurementSet(const std::string& n, TableLock::LockOption l, TableOption o = Old) : Table(n, TableLock(l), o) {}
  MSAntenna antenna() const { return MSAntenna(Sub("ANTENNA")); }
  MSDataDescription dataDescription() const { return MSDataDescription(Sub("DATA_DESCRIPTION")); }
  MSPolarization polarization() const { return MSPolarization(Sub("POLARIZATION")); }
  MSSpectralWindow spectralWindow() const { return MSSpectralWindow(Sub("SPECTRAL_WINDOW")); }
  MSField field() const { return MSField(Sub("FIELD")); }
  MSObservation observation() const { return MSObservation(Sub("OBSERVATION")); }
  MSFeed feed() const { return MSFeed(Sub("FEED")); }
  MSHistory history() const { return MSHistory(Sub("HISTORY")); }
  static TableDesc requiredTableDesc() {
    return mini_detail::MakeDesc(
        "ANTENNA1,ANTENNA2,ARRAY_ID,DATA_DESC_ID,EXPOSURE,FEED1,FEED2,FIELD_ID,FLAG,FLAG_CATEGORY,FLAG_ROW,"
        "INTERVAL,OBSERVATION_ID,PROCESSOR_ID,SCAN_NUMBER,SIGMA,STATE_ID,TIME,TIME_CENTROID,UVW,WEIGHT",
        "iiiidiiiBBbdiiiFiddVF");
  }
  static void addColumnToDesc(TableDesc& d, PredefinedColumns c) {
    if (c == WEIGHT_SPECTRUM || c == SIGMA_SPECTRUM)
      d.addColumn(ArrayColumnDesc<float>(columnName(c)));
    else
      d.addColumn(ArrayColumnDesc<Complex>(columnName(c)));
  }
  void createDefaultSubtables(TableOption = New) {
    auto make = [&](const char* n, const TableDesc& d) {
      SetupNewTable s(tableName() + "/" + n, d, New);
      rwKeywordSet().defineTable(n, Table(s));
    };
    make("ANTENNA", MSAntenna::requiredTableDesc());
    make("DATA_DESCRIPTION", MSDataDescription::requiredTableDesc());
    make("FEED", MSFeed::requiredTableDesc());
    make("FIELD", MSField::requiredTableDesc());
    make("HISTORY", MSHistory::requiredTableDesc());
    make("OBSERVATION", MSObservation::requiredTableDesc());
    make("POLARIZATION", MSPolarization::requiredTableDesc());
    make("SPECTRAL_WINDOW", MSSpectralWindow::requiredTableDesc());
  }
  String sourceTableName() const { return tableName() + "/SOURCE"; }
  bool isColumn(PredefinedColumns c) const { return tableDesc().isColumn(columnName(c)); }
  String antennaTableName() const { return tableName() + "/ANTENNA"; }
  String observationTableName() const { return tableName() + "/OBSERVATION"; }
  String spectralWindowTableName() const { return tableName() + "/SPECTRAL_WINDOW"; }

 private:
  Table Sub(const std::string& n) const { return keywordSet().asTable(n); }
};
typedef MeasurementSet MS;

class MSAntennaColumns {
 public:
  MSAntennaColumns(const MSAntenna& t) : name_(t, "NAME"), pos_(t, "POSITION"), posm_(t, "POSITION") {}
  ScalarColumn<String>& name() { return name_; }
  ArrayColumn<double>& position() { return pos_; }
  ScalarMeasColumn<MPosition>& positionMeas() { return posm_; }

 private:
  ScalarColumn<String> name_;
  ArrayColumn<double> pos_;
  ScalarMeasColumn<MPosition> posm_;
};

typedef MSAntennaColumns ROMSAntennaColumns;
class MSDataDescColumns {
 public:
  MSDataDescColumns(const MSDataDescription& t) : t_(t) {}
  ScalarColumn<int> spectralWindowId() const { return ScalarColumn<int>(t_, "SPECTRAL_WINDOW_ID"); }
  ScalarColumn<int> polarizationId() const { return ScalarColumn<int>(t_, "POLARIZATION_ID"); }

 private:
  Table t_;
};
typedef MSDataDescColumns ROMSDataDescColumns;
class MSSpWindowColumns {
 public:
  MSSpWindowColumns(const MSSpectralWindow& t) : t_(t) {}
  ArrayColumn<double> chanFreq() const { return ArrayColumn<double>(t_, "CHAN_FREQ"); }
  ArrayColumn<double> chanWidth() const { return ArrayColumn<double>(t_, "CHAN_WIDTH"); }

 private:
  Table t_;
};
typedef MSSpWindowColumns ROMSSpWindowColumns;
class MSFieldColumns {
 public:
  MSFieldColumns(const MSField& t) : t_(t) {}
  ArrayMeasColumn<MDirection> referenceDirMeasCol() const { return ArrayMeasColumn<MDirection>(t_, "REFERENCE_DIR"); }
  ArrayMeasColumn<MDirection> delayDirMeasCol() const { return ArrayMeasColumn<MDirection>(t_, "DELAY_DIR"); }
  ArrayMeasColumn<MDirection> phaseDirMeasCol() const { return ArrayMeasColumn<MDirection>(t_, "PHASE_DIR"); }

 private:
  Table t_;
};
typedef MSFieldColumns ROMSFieldColumns;
class MSPolarizationColumns {
 public:
  MSPolarizationColumns(const MSPolarization& t) : t_(t) {}
  ArrayColumn<int> corrType() const { return ArrayColumn<int>(t_, "CORR_TYPE"); }
  ScalarColumn<int> numCorr() const { return ScalarColumn<int>(t_, "NUM_CORR"); }

 private:
  Table t_;
};
typedef MSPolarizationColumns ROMSPolarizationColumns;
class MSMainColumns {
 public:
  MSMainColumns(const Table& t) : t_(t) {}
  ScalarColumn<double> time() const { return ScalarColumn<double>(t_, "TIME"); }
  ScalarColumn<double> exposure() const { return ScalarColumn<double>(t_, "EXPOSURE"); }
  ScalarColumn<double> interval() const { return ScalarColumn<double>(t_, "INTERVAL"); }

 private:
  Table t_;
};
typedef MSMainColumns ROMSMainColumns;

class MSSelectionErrorHandler {
 public:
  virtual ~MSSelectionErrorHandler() = default;
  virtual void reportError(const char* token, const String message) = 0;
};
template <class T>
using CountedPtr = std::shared_ptr<T>;
class MSAntennaParse {
 public:
  inline static CountedPtr<MSSelectionErrorHandler> thisMSAErrorHandler;
};
/// Baseline selection strings: ';' separated terms "a&b", "a&", "a", "!a",
/// "a,b&c", with "&&" including and "&&&" only the autocorrelations; names may
/// contain * and ?. Enough for the checks' own selections.
inline TableExprNode msAntennaGramParseCommand(const Table& antenna, TableExprNode& a1, TableExprNode& a2,
                                               const std::string& command, Vector<int>&, Vector<int>&,
                                               Matrix<int>&) {
  ScalarColumn<String> names(antenna, "NAME");
  const Vector<String> all = names.getColumn();
  auto expand = [&](const std::string& list) {
    std::set<int> r;
    std::stringstream ss(list);
    std::string part;
    while (std::getline(ss, part, ',')) {
      String p(part);
      p.trim();
      if (p.empty()) continue;
      bool any = false;
      for (size_t i = 0; i < all.size(); ++i)
        if (String(all[i]).matches(Regex(Regex::fromPattern(p)))) {
          r.insert(i);
          any = true;
        }
      char* end;
      const long n = std::strtol(p.c_str(), &end, 10);
      if (!any && *end == 0 && n >= 0 && n < long(all.size())) {
        r.insert(n);
        any = true;
      }
      if (!any && MSAntennaParse::thisMSAErrorHandler)
        MSAntennaParse::thisMSAErrorHandler->reportError(p.c_str(), "no match for ");
    }
    return r;
  };
  auto sel = std::make_shared<std::set<std::pair<int, int>>>();
  std::stringstream ss(command);
  std::string term;
  while (std::getline(ss, term, ';')) {
    String t(term);
    t.trim();
    const bool neg = !t.empty() && t[0] == '!';
    if (neg) t = t.substr(1);
    const size_t p = t.find('&');
    size_t n = 0;
    if (p != std::string::npos)
      while (p + n < t.size() && t[p + n] == '&') ++n;
    std::set<int> left = expand(p == std::string::npos ? std::string(t) : t.substr(0, p)), right;
    const std::string rest = p == std::string::npos ? "" : t.substr(p + n);
    if (p == std::string::npos || String(rest).find_first_not_of(' ') == std::string::npos) {
      if (p == std::string::npos)
        for (size_t i = 0; i < all.size(); ++i) right.insert(i);
      else
        right = left;
    } else
      right = expand(rest);
    for (int x : left)
      for (int y : right) {
        if (n == 3 ? x != y : (n < 2 && x == y)) continue;
        for (auto pr : {std::make_pair(x, y), std::make_pair(y, x)}) {
          if (neg)
            sel->erase(pr);
          else
            sel->insert(pr);
        }
      }
    if (neg && sel->empty())
      for (size_t x = 0; x < all.size(); ++x)
        for (size_t y = 0; y < all.size(); ++y)
          if (!left.count(x) || !right.count(y)) sel->insert({int(x), int(y)});
  }
  TableExprNode c1 = a1, c2 = a2;
  return TableExprNode(TableExprNode::Fn([sel, c1, c2](const Record* r, rownr_t i) -> double {
    return sel->count({int(c1.Eval(r, i)), int(c2.Eval(r, i))});
  }));
}
class MSSelection {
 public:
  void setAntennaExpr(const std::string& s) { expr_ = s; }
  TableExprNode toTableExprNode(const MeasurementSet* ms) {
    TableExprNode a1 = ms->col("ANTENNA1"), a2 = ms->col("ANTENNA2");
    Vector<int> v1, v2;
    Matrix<int> m;
    return msAntennaGramParseCommand(ms->antenna(), a1, a2, expr_, v1, v2, m);
  }

 private:
  std::string expr_;
};

inline Array<size_t> partialNFalse(const Array<bool>& a, const IPosition& axes) {
  // Only the leading axes are ever collapsed by DP3.
  const size_t n = axes.size();
  IPosition s;
  for (size_t i = n; i < a.ndim(); ++i) s.append(IPosition(1, a.shape()[i]));
  Array<size_t> r(s, size_t(0));
  size_t per = 1;
  for (size_t i = 0; i < n; ++i) per *= a.shape()[i];
  size_t k = 0;
  a.ForEach([&](bool x) {
    if (!x) ++r.data()[k / per];
    ++k;
  });
  return r;
}
/// The simulated wall clock is not relevant here: a fixed date.
class Time {
 public:
  Time() {}
  Time(unsigned y, unsigned m, unsigned d, unsigned h = 0, unsigned mi = 0, double s = 0) {
    const long a = (14 - long(m)) / 12, yy = long(y) + 4800 - a, mm = long(m) + 12 * a - 3;
    const long jdn = long(d) + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
    mjd_ = double(jdn) - 2400001.0 + h / 24.0 + mi / 1440.0 + s / 86400.0;
  }
  double modifiedJulianDay() const { return mjd_; }
  double julianDay() const { return mjd_ + 2400000.5; }

 private:
  double mjd_ = 60000.5;
};

/// Queries of the form "select gmin(X) as a, gmax(Y) as b from $1".
class TaQLResult {
 public:
  TaQLResult() {}
  TaQLResult(const Table& t) : t_(t) {}
  bool isTable() const { return true; }
  Table table() const { return t_; }

 private:
  Table t_;
};
inline TaQLResult tableCommand(const std::string& query, const Table& t) {
  TableDesc d;
  std::vector<std::pair<std::string, double>> values;
  size_t at = 0;
  while (true) {
    size_t g = query.find("gm", at);
    if (g == std::string::npos) break;
    const std::string fn = query.substr(g, 4);
    const size_t open = query.find('(', g), close = query.find(')', g), as = query.find(" as ", close);
    if (as == std::string::npos || open == std::string::npos) throw AipsError("cannot parse query " + query);
    const std::string column = query.substr(open + 1, close - open - 1);
    size_t e = as + 4;
    while (e < query.size() && (std::isalnum(static_cast<unsigned char>(query[e])) || query[e] == '_')) ++e;
    const std::string name = query.substr(as + 4, e - as - 4);
    double v = 0;
    ScalarColumn<double> c(t, column);
    const Vector<double> all = c.getColumn();
    for (size_t i = 0; i < all.size(); ++i) v = i == 0 ? all[i] : fn == "gmin" ? std::min(v, all[i]) : std::max(v, all[i]);
    d.addColumn(ScalarColumnDesc<double>(name));
    values.emplace_back(name, v);
    at = e;
  }
  if (values.empty()) throw AipsError("cannot parse query " + query);
  SetupNewTable s("", d, Table::Scratch);
  Table r(s, 1);
  for (const auto& [n, v] : values) ScalarColumn<double>(r, n).put(0, v);
  return TaQLResult(r);
}

}  // namespace casacore
#endif
