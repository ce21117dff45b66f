// -*- mode: Bluespec; -*-
// Fixed-width, fixed-point arithmetic of oraiswap-v3 at full width.
//
// Every quantity of the contract is a non-negative integer; a failed computation
// (an `Err`, an overflow panic, a failed cast: all of them abort the transaction)
// is the value ERR, and every operator below is strict in ERR.
module num {
  pure val ERR = -1

  pure val U32_MAX  = 2^32 - 1
  pure val U64_MAX  = 2^64 - 1
  pure val U128_MAX = 2^128 - 1
  pure val U256_MAX = 2^256 - 1
  pure val U320_MAX = 2^320 - 1

  // denominators
  pure val PCT   = 10^12   // Percentage, FixedPoint
  pure val PRICE = 10^24   // SqrtPrice, SecondsPerLiquidity
  pure val LIQ   = 10^6    // Liquidity
  pure val FG    = 10^28   // FeeGrowth

  pure def isErr(x: int): bool = x < 0

  // casts into an unsigned type of the given maximum
  pure def fit(x: int, max: int): int = if (x < 0 or x > max) ERR else x
  pure def u64(x: int): int = fit(x, U64_MAX)
  pure def u128(x: int): int = fit(x, U128_MAX)
  pure def u256(x: int): int = fit(x, U256_MAX)
  pure def u320(x: int): int = fit(x, U320_MAX)

  pure def ceilDiv(a: int, b: int): int = (a + b - 1) / b

  // u128 addition/subtraction; strict in ERR because ERR is negative only when
  // an operand was, hence the explicit tests
  pure def add128(a: int, b: int): int =
    if (a < 0 or b < 0) ERR else u128(a + b)
  pure def sub128(a: int, b: int): int =
    if (a < 0 or b < 0) ERR else u128(a - b)

  // wrapping u128 arithmetic (fee growth accumulators)
  pure def wadd(a: int, b: int): int = (a + b) % (2^128)
  pure def wsub(a: int, b: int): int =
    val d = a - b
    if (d < 0) d + 2^128 else d
  // wrapping u64 subtraction (seconds_outside)
  pure def wsub64(a: int, b: int): int =
    val d = a - b
    if (d < 0) d + 2^64 else d

  // BigOps on a u128-backed decimal: widen to 256 bits, scale by `one`, cast back
  pure def bigMul(a: int, b: int, one: int): int =
    if (a < 0 or b < 0 or a * b > U256_MAX) ERR else u128(a * b / one)
  pure def bigMulUp(a: int, b: int, one: int): int =
    if (a < 0 or b < 0 or a * b + one - 1 > U256_MAX) ERR else u128((a * b + one - 1) / one)
  pure def bigDiv(a: int, b: int, one: int): int =
    if (a < 0 or b <= 0) ERR else
      val n = u256(a * one)
      if (n < 0) ERR else u128(n / b)
  pure def bigDivUp(a: int, b: int, one: int): int =
    if (a < 0 or b <= 0) ERR else
      val n = a * one
      if (n > U256_MAX or n + b - 1 > U256_MAX) ERR else u128((n + b - 1) / b)

  // ToValue: as bigMul but the result stays 256 bits wide
  pure def mulToValue(a: int, b: int, one: int): int =
    if (a < 0 or b < 0) ERR else
      val p = u256(a * b)
      if (p < 0) ERR else p / one
  pure def mulToValueUp(a: int, b: int, one: int): int =
    if (a < 0 or b < 0) ERR else
      val p = a * b
      if (p > U256_MAX or p + one - 1 > U256_MAX) ERR else (p + one - 1) / one

  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def abs(a: int): int = if (a < 0) -a else a
  // floor division for any numerator and a positive denominator
  pure def floorDiv(a: int, b: int): int =
    if (a >= 0) a / b else -((b - 1 - a) / b)
}
