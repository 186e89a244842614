// One evaluation of the library behind a type-erased interface, and its
// expected outcome from the model. calc_impl.hpp instantiates it per policy.
#pragma once
#include "model.hpp"
#include "sim.hpp"

#include <cstdint>

namespace calc {

using model::i128;
using model::i64;

enum Kind : int {
  // fraction op fraction
  add_ff, sub_ff, mul_ff, div_ff, mod_ff,
  // fraction op integer
  add_fi, sub_fi, mul_fi, div_fi, mod_fi,
  // integer op fraction
  add_if, sub_if, mul_if, div_if, mod_if,
  // compound assignment (the first operand is modified)
  cadd_ff, csub_ff, cmul_ff, cdiv_ff, cmod_ff,
  cadd_fi, csub_fi, cmul_fi, cdiv_fi, cmod_fi,
  // comparisons: all six operators at once
  cmp_ff, cmp_fi, cmp_if,
  // unary, fraction results
  negate, promote, abs_, reciprocal_, normalize_, reduce_, reduce_signs, construct,
  // fraction op wider/narrower representation
  mixed_rep,
  // rounding
  trunc_, ceil_, floor_, round_, to_whole_, redenominate_,
  // powers
  pow2_, pow_,
  // queries
  queries, identical,
  hash_,
  // conversions
  to_float_, to_double_, to_long_double_, from_float, from_double, from_text, format_, parse_,
  literal_, ratio_,
  // mixed numbers
  mix_make, mix_neg, mix_add, mix_add_f, mix_add_i,
  // time
  time_convert, time_arith, clock_read,
  // operands of different representations: int64 and int
  mixed_rep_i, mixed_rep_cmp, mixed_rep_assign,
  literal_div, dec_literal,
  mix_parts, mix_reps, mix_hash,
  time_whole,
  kind_count
};
char const* kind_name(int kind);
// kinds that modify their first operand
inline bool modifies(int kind)
{
  return (kind >= cadd_ff && kind <= cmod_fi) || kind == mixed_rep_assign;
}
// kinds whose fraction result has the representation of the operands
inline bool same_rep_result(int kind)
{
  return kind != mixed_rep && kind != mixed_rep_i && kind != ratio_;
}

struct Slot {
  alignas(16) unsigned char bytes[16] = {};
};

// Everything an evaluation can use.
struct Args {
  Slot* a = nullptr;         // modified by compound assignments only
  Slot const* b = nullptr;
  i64 i = 0;                 // integer operand, exponent, new denominator
  int mode = 0;              // rounding mode, variant
  double real = 0;
  char const* text = nullptr; // not terminated
  unsigned text_len = 0;
};

struct Result {
  enum Type : int { none, frac, ints, bits } type = none;
  i128 n = 0, d = 0;           // frac
  i64 v[4] = {};               // ints / bits
  char text[64] = {};
};

struct Calc {
  char const* name;
  model::Policy policy;
  model::Limits limits;
  unsigned rep_bits;           // value bits of the representation
  bool default_policy;
  bool is_long;
  void (*store)(Slot&, i128 n, i128 d);
  model::R (*load)(Slot const&);
  // Performs one evaluation with the library.
  void (*exec)(int kind, Args const&, Result&);
  bool (*supports)(int kind);
};

// Expected outcome; `ok` is false when the inputs are outside the property.
struct Expect {
  bool ok = false;
  Result::Type type = Result::none;
  model::Q q;                  // frac
  bool canonical = false;      // frac: must be lowest terms, positive denominator
  bool any_parts = true;       // frac: representation free as long as equal to q
  model::R parts;              // frac: exact parts when any_parts is false
  i64 v[4] = {};
  i64 mask = -1;               // bits: which bits of v[0] are judged
  model::Q alt;                // frac: second acceptable value
  bool has_alt = false;
};

Expect expect(Calc const&, int kind, Args const&);

// Runs one evaluation inside the library boundary and judges it.
// `where` names the property check for the violation class.
// Returns false when the inputs are outside the property (nothing executed).
bool evaluate(Calc const&, int kind, Args const&, Result&, char const* where);
bool judge(Calc const&, int kind, Args const&, Expect const&, model::R a_before,
           Result const&, char const* where);

// All instantiations linked into this binary.
Calc const* const* all(int& n);
struct Register {
  explicit Register(Calc const&);
};

// ---- generators -----------------------------------------------------------
// A representation with about `bits` significant bits.
model::R gen_parts(Calc const&, unsigned bits, bool allow_undefined = false);
model::R gen_related(Calc const&, model::R, unsigned bits);
i64 gen_int(Calc const&, unsigned bits);
// Fills the non-operand arguments for a kind.
struct TextBuffer {
  char data[64];
};
void gen_aux(Calc const&, int kind, unsigned bits, Args&, TextBuffer&);

// Exact value of a double, or undefined.
model::Q exact_double(double, bool& fits_128);
// Reference grammar for floating-point text: value or undefined; in_domain
// tells whether the parts fit the representation.
model::Q parse_decimal(char const* s, unsigned n, model::Limits const&, bool& valid,
                       bool& in_domain);

} // namespace calc
