# Contracts for runtime/validators.  Parameters are named by position.
package validators

func validators.InInclusiveRange(val, lower, upper) (r)
  nonodes
  safety C14
  instances int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64
  ensures [C14] "the inclusive range accepts exactly lower <= val <= upper" r == (lower <= val && val <= upper)
  ensures [C14] "the limits are accepted, not-a-number is not" ((lower <= upper && (val == lower || val == upper)) ==> r) && (val != val ==> !r)

func validators.InExclusiveRange(val, lower, upper) (r)
  nonodes
  safety C14
  instances int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64
  ensures [C14] "the exclusive range accepts exactly lower < val < upper" r == (lower < val && val < upper)
  ensures [C14] "the limits and not-a-number are refused" ((val == lower || val == upper || val != val) ==> !r)

func validators.IsLessThan(val, limit) (r)
  nonodes
  safety C14
  instances int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64
  ensures [C14] "accepts exactly the values strictly below the limit" r == (val < limit)
  ensures [C14] "the limit and not-a-number are refused" ((val == limit || val != val || limit != limit) ==> !r)

func validators.IsGreaterThan(val, limit) (r)
  nonodes
  safety C14
  instances int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64
  ensures [C14] "accepts exactly the values strictly above the limit" r == (limit < val)
  ensures [C14] "the limit and not-a-number are refused" ((val == limit || val != val || limit != limit) ==> !r)

func validators.MustBool(out) ()
  nonodes
  safety C14
  maypanic [C14] "panics only when given false" !out
  ensures [C14] "returns only when given true" out

func validators.MustNotErr(err) ()
  nonodes
  safety C14
  maypanic [C14] "panics only when given an error" err != nil
  ensures [C14] "returns only when given no error" err == nil
