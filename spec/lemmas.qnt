// Facts about the specification's own arithmetic, for every amount: Apalache proves them (prove.sh).
module lemmas {
  import num.* from "./num"
  import fees.* from "./fees"
  import types.* from "./types"
  import step.* from "./step"

  var fee: int
  var r: bool
  var p: int
  var q: int
  action init = {
    nondet a = Int.oneOf()
    nondet b = Bool.oneOf()
    nondet c = Int.oneOf()
    nondet d = Int.oneOf()
    all { a >= 0, c >= 0, c <= 100, d >= 0, fee' = a, r' = b, p' = c, q' = d }
  }
  action stay = all { fee' = fee, r' = r, p' = p, q' = q }
  // a fee is split without rest; the protocol never gets more than a fifth, the referral never more than a fifth of that
  val splits = {
    val s = split(fee, r)
    and { s.trade + s.prot + s.ref == fee, s.trade >= 0, s.prot >= 0, s.ref >= 0, 5 * (s.prot + s.ref) <= fee, 25 * s.ref <= fee, not(r) implies s.ref == 0 }
  }
  // the creator's percentage of a fee leaves something for the partner, and all of it is given to the two
  val shares = { val x = pct(fee, p) x >= 0 and x <= fee }

  // the part of a claim that is paid from the fees and from the migration share is bounded by both and by the maximum
  val claims = { val t = taken(fee, q, p) and { t.fee + t.mig <= max(p, 0), t.fee >= 0, t.mig >= 0, t.fee <= fee, t.mig <= q, t.fee + t.mig == min(fee + q, p) } }
  // for any rate below 100%: a fee is part of the amount, and not nothing unless the amount or the rate is
  val partOf = (p < 100) implies { val rate = p * (DEN / 100) val x = feeOf(rate, fee) and { x >= 0, x <= fee, (rate > 0 and fee > 0) implies x > 0 } }
  // the input for a stated output carries at least the rate
  val inverse = (p < 100) implies { val rate = p * (DEN / 100) val x = inclOf(rate, fee) and { x >= fee, (x - fee) * DEN >= x * rate, feeOf(rate, x) <= x - fee } }

  // the same for every rate
  val inverseAny = (q < DEN) implies { val x = inclOf(q, fee) and { x >= fee, (x - fee) * DEN >= x * q } }
  val partAny = (q < DEN) implies { val x = feeOf(q, fee) and { x >= 0, x <= fee } }
  val good = splits and shares and claims and partOf and inverse and inverseAny and partAny
}
module curveLemmas {
  import num.* from "./num"
  import curve.* from "./curve"
  var lo: int
  var hi: int
  var l: int
  var a: int
  action init = {
    nondet x = Int.oneOf()
    nondet y = Int.oneOf()
    nondet z = Int.oneOf()
    nondet w = Int.oneOf()
    all { x > 0, y >= x, z > 0, w >= 0, lo' = x, hi' = y, l' = z, a' = w }
  }
  action stay = all { lo' = lo, hi' = hi, l' = l, a' = a }
  // rounding up and down differ by at most one unit, and never in favour of the trader
  val rounding = and {
    dBase(lo, hi, l, false) >= 0, dBase(lo, hi, l, true) - dBase(lo, hi, l, false) <= 1, dBase(lo, hi, l, true) >= dBase(lo, hi, l, false),
    dQuote(lo, hi, l, false) >= 0, dQuote(lo, hi, l, true) - dQuote(lo, hi, l, false) <= 1, dQuote(lo, hi, l, true) >= dQuote(lo, hi, l, false)
  }
  // the price reached by an input is one the input pays for
  val quotePays = { val p = nextQuoteIn(lo, l, a) p >= lo and dQuote(lo, p, l, true) <= a }
  val basePays = { val p = nextBaseIn(lo, l, a) p > 0 and p <= lo and dBase(p, lo, l, true) <= a }
  // the price reached by an output leaves enough for the output
  val quoteGiven = { val p = nextQuoteOut(lo, l, a) (p != FAIL and p > 0) implies p <= lo and dQuote(p, lo, l, false) >= a }
  // going there and back inside a segment is never a gain
  val roundTrip = { val p = nextQuoteIn(lo, l, a) val b = dBase(lo, p, l, false) val r = nextBaseIn(p, l, b) r >= lo and dQuote(r, p, l, false) <= a }
  val roundTripBack = { val p = nextBaseIn(lo, l, a) val q = dQuote(p, lo, l, false) val r = nextQuoteIn(p, l, q) r <= lo and dBase(p, r, l, false) <= a }
  val outAndBack = { val p = nextBaseOut(lo, l, a) (p != FAIL and p > 0) implies { val r = nextBaseIn(p, l, a) r >= lo and dQuote(r, p, l, false) <= dQuote(lo, p, l, true) } }
  val good = rounding and quotePays and basePays and quoteGiven and roundTrip and roundTripBack and outAndBack
}
module feeLemmas {
  import num.* from "./num"
  import fees.* from "./fees"
  var f: Base
  var d: Dyn
  var v: Vol
  var x: int
  var y: int
  action init = {
    nondet cliff = Int.oneOf()
    nondet f1 = Int.oneOf()
    nondet f2 = Int.oneOf()
    nondet f3 = Int.oneOf()
    nondet red = Int.oneOf()
    nondet maxVol = Int.oneOf()
    nondet flt = Int.oneOf()
    nondet decay = Int.oneOf()
    nondet acc = Int.oneOf()
    nondet vref = Int.oneOf()
    nondet last = Int.oneOf()
    nondet a = Int.oneOf()
    nondet b = Int.oneOf()
    all {
      cliff >= MIN_NUM, cliff <= MAX_NUM, f1 >= 0, f2 >= 0, f3 >= 0, red >= 0, red <= BPS, maxVol >= 0, flt > 0, decay > flt,
      acc >= 0, acc <= maxVol, vref >= 0, vref <= maxVol, last >= 0, a >= 0, b >= a,
      f' = { cliff: cliff, bmode: LINEAR, f1: f1, f2: f2, f3: f3 },
      d' = { on: true, bin: 1, binQ: 1844674407370955, filter: flt, decay: decay, red: red, maxVol: maxVol, vfc: 1 },
      v' = { last: last, refp: 1, acc: acc, vref: vref }, x' = a, y' = b
    }
  }
  action stay = all { f' = f, d' = d, v' = v, x' = x, y' = y }
  // the volatility never exceeds its configured maximum, and what is carried over is never more than there was
  val volatility = {
    val r = refresh(d, v, 5, x)
    and { r.acc == v.acc, r.vref >= 0, r.vref <= d.maxVol, (x - v.last >= d.filter) implies r.vref <= v.acc, (x - v.last >= d.decay) implies r.vref == 0,
      (x - v.last < d.filter) implies r == v }
  }
  // the limiter's fee: never below the first rate, never more than the amount
  val bps = f.f1 > 0 and f.f1 <= 9900 and f.cliff + bpsToNum(f.f1) <= MAX_NUM and f.f3 > 0
  val limiterRange = (bps and x > f.f3) implies and { limFee(f, x) * DEN >= x * f.cliff, limFee(f, x) <= x }
}
