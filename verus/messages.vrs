// C04, C07, C08, C09: what is written, framed, received and unpacked.
use vstd::prelude::*;
verus! {
//@ subst fn serialise(&self, buf: &mut dyn BufMut) => fn serialise<W: BufMut>(&self, buf: &mut W)
//@ subst fn serialise(&self, _buf: &mut dyn BufMut) => fn serialise<W: BufMut>(&self, _buf: &mut W)
//@ subst fn put_into(&self, buf: &mut dyn BufMut) => fn put_into<W: BufMut>(&self, buf: &mut W)
//@ subst fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) => fn system_path_put_into_buf<W: BufMut>(path: &SystemPath, buf: &mut W)
//@ subst fn deserialise(buf: &mut dyn Buf) => fn deserialise<B: Buf>(buf: &mut B)
//@ subst fn deserialise(_buf: &mut dyn Buf) => fn deserialise<B: Buf>(_buf: &mut B)
//@ subst fn system_path_from_buf(buf: &mut dyn Buf) => fn system_path_from_buf<B: Buf>(buf: &mut B)
//@ subst Result<Self, Self::Error> => Result<Self, SerError>
//@ subst Field: BitField<u8> + Into<u8> => Field: BitField
//@ subst Field: BitField<u8> + TryFrom<u8> => Field: BitField
//@ subst Field: BitField<u8> => Field: BitField
//@ subst Result<(), Error> => Result<(), FieldError>
//@ subst Result<Field, Error> => Result<Field, FieldError>
//@ subst Error::Overflow => FieldError::Overflow
//@ subst Error::TryFromErr => FieldError::TryFromErr
//@ subst (target >> pos) => (*target >> pos)
//@ subst String => Text
//@ subst np.path_ref().join("/") => joined(np.path_ref())
//@ inline for_each verus/result.rs :: - :: for_each
//@ inline map verus/result.rs :: - :: map

type SerId = u64;
global size_of usize == 8;

#[verifier::external_body]
#[derive(Debug)]
pub struct SerError { x: usize }
impl SerError {
    #[verifier::external_body]
    fn invalid_data<M>(s: M) -> SerError { unimplemented!() }
    #[verifier::external_body]
    fn invalid_type<M>(s: M) -> SerError { unimplemented!() }
    #[verifier::external_body]
    fn unknown<M>(s: M) -> SerError { unimplemented!() }
    #[verifier::external_body]
    fn from_debug<M>(s: M) -> SerError { unimplemented!() }
}
#[verifier::external_body]
fn format_message() -> Text { unimplemented!() }

// ---- numbers on the wire
mod axioms {
use super::*;
pub uninterp spec fn be16(x: u16) -> Seq<u8>;
pub uninterp spec fn un16(s: Seq<u8>) -> u16;
pub uninterp spec fn be32(x: u32) -> Seq<u8>;
pub uninterp spec fn be64(x: u64) -> Seq<u8>;
pub uninterp spec fn un64(s: Seq<u8>) -> u64;
/// A text, determined by its bytes.
#[verifier::external_body]
pub struct Text { x: usize }
impl Text { pub uninterp spec fn raw(self) -> Seq<u8>; }
pub uninterp spec fn text_of(b: Seq<u8>) -> Option<Text>;
#[verifier::external_body]
pub broadcast proof fn be16_back(x: u16)
    ensures #![trigger be16(x)] be16(x).len() == 2, un16(be16(x)) == x,
{}
#[verifier::external_body]
pub broadcast proof fn be32_len(x: u32)
    ensures #[trigger] be32(x).len() == 4,
{}
#[verifier::external_body]
pub broadcast proof fn be64_back(x: u64)
    ensures #![trigger be64(x)] be64(x).len() == 8, un64(be64(x)) == x,
{}
pub broadcast proof fn skips(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}
pub broadcast proof fn arrays4(b: [u8; 4])
    ensures #[trigger] of4(b@) == b,
{
    let c = of4(b@);
    assert(c@ == b@);
    assert(c =~= b);
}
pub broadcast proof fn arrays16(b: [u8; 16])
    ensures #[trigger] of16(b@) == b,
{
    let c = of16(b@);
    assert(c@ == b@);
    assert(c =~= b);
}
pub open spec fn of4(s: Seq<u8>) -> [u8; 4] { choose|b: [u8; 4]| #[trigger] b@ == s }
pub open spec fn of16(s: Seq<u8>) -> [u8; 16] { choose|b: [u8; 16]| #[trigger] b@ == s }
#[verifier::external_body]
pub broadcast proof fn names(p: Seq<Text>)
    ensures #![trigger join(p)]
        lookup(p) && p.len() > 0 ==> split(join(p)) == p && join(p).raw().len() > 0,
        p.len() == 0 ==> join(p).raw().len() == 0 && lookup(p),
{}
/// The segments with the separator between them, and the other way.
pub uninterp spec fn join(p: Seq<Text>) -> Text;
pub uninterp spec fn split(t: Text) -> Seq<Text>;
/// The path names one actor or a group.
pub uninterp spec fn lookup(p: Seq<Text>) -> bool;
#[verifier::external_body]
pub broadcast proof fn texts(t: Text)
    ensures #[trigger] text_of(t.raw()) == Some(t),
{}
}
use axioms::*;
broadcast use {axioms::be16_back, axioms::be64_back, axioms::be32_len, axioms::texts, axioms::names, axioms::skips, axioms::arrays4, axioms::arrays16};

/// Memory of a fixed size.
trait Memory {
    spec fn bytes(&self) -> Seq<u8>;
}
impl<const N: usize> Memory for [u8; N] { spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Memory for [u8] { spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Memory for Vec<u8> { spec fn bytes(&self) -> Seq<u8> { self@ } }

/// A source of bytes (`bytes::Buf`), by its documented contract.
trait Buf: Sized {
    /// The bytes not read yet.
    spec fn rest(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize)
        ensures r == self.rest().len(), r <= isize::MAX;
    fn advance(&mut self, cnt: usize)
        requires cnt <= old(self).rest().len(),
        ensures final(self).rest() == old(self).rest().skip(cnt as int);
    fn copy_to_slice<M: Memory>(&mut self, dst: &mut M)
        requires old(dst).bytes().len() <= old(self).rest().len(),
        ensures final(dst).bytes() == old(self).rest().take(old(dst).bytes().len() as int), final(self).rest() == old(self).rest().skip(old(dst).bytes().len() as int);
    fn try_get_u8(&mut self) -> (r: Result<u8, SerError>)
        ensures got(old(self).rest(), final(self).rest(), 1, r is Ok), r matches Ok(x) ==> x == old(self).rest()[0];
    fn try_get_u16(&mut self) -> (r: Result<u16, SerError>)
        ensures got(old(self).rest(), final(self).rest(), 2, r is Ok), r matches Ok(x) ==> x == un16(old(self).rest().take(2));
    fn try_get_u64(&mut self) -> (r: Result<u64, SerError>)
        ensures got(old(self).rest(), final(self).rest(), 8, r is Ok), r matches Ok(x) ==> x == un64(old(self).rest().take(8));
    fn get_ser_id(&mut self) -> (r: SerId)
        requires old(self).rest().len() >= 8,
        ensures r == un64(old(self).rest().take(8)), final(self).rest() == old(self).rest().skip(8);
}
spec fn got(a: Seq<u8>, b: Seq<u8>, n: int, ok: bool) -> bool {
    ok == (a.len() >= n) && b == if ok { a.skip(n) } else { a }
}
/// A place to write to (`bytes::BufMut`) that has room, or remembers that it had none.
trait BufMut: Sized {
    spec fn written(&self) -> Seq<u8>;
    spec fn room(&self) -> nat;
    fn remaining_mut(&self) -> (r: usize)
        ensures r == self.room();
    fn put_u8(&mut self, x: u8)
        ensures final(self).written() == old(self).written() + seq![x];
    fn put_u16(&mut self, x: u16)
        ensures final(self).written() == old(self).written() + be16(x);
    fn put_u32(&mut self, x: u32)
        ensures final(self).written() == old(self).written() + be32(x);
    fn put_u64(&mut self, x: u64)
        ensures final(self).written() == old(self).written() + be64(x);
    fn put_ser_id(&mut self, x: SerId)
        ensures final(self).written() == old(self).written() + be64(x);
    fn put_slice<M: Memory + ?Sized>(&mut self, src: &M)
        ensures final(self).written() == old(self).written() + src.bytes();
    fn put<B: Buf>(&mut self, src: B)
        ensures final(self).written() == old(self).written() + src.rest();
}

/// Something that can be written.
trait Serialisable: Sized {
    spec fn id(&self) -> SerId;
    /// The bytes it is written as, if that is possible at all.
    spec fn wire(&self) -> Seq<u8>;
    spec fn fits(&self) -> bool;
    spec fn exact_hint(&self) -> bool;
    spec fn sound(&self) -> bool;
    fn ser_id(&self) -> (r: SerId)
        ensures r == self.id();
    fn size_hint(&self) -> (r: Option<usize>)
        requires self.sound(),
        ensures self.exact_hint() ==> r == Some(self.wire().len() as usize), r matches Some(n) ==> n <= 0x1fff_ffff_ffff_ffff;
    fn serialise<W: BufMut>(&self, buf: &mut W) -> (r: Result<(), SerError>)
        requires self.sound(),
        ensures r is Ok == self.fits(), r is Ok ==> final(buf).written() == old(buf).written() + self.wire();
}
/// Something that can be read: the value and the number of bytes taken, or an error.
trait Deserialiser<T>: Sized {
    const SER_ID: SerId;
    spec fn decoded(s: Seq<u8>) -> Option<(T, nat)>;
    fn deserialise<B: Buf>(buf: &mut B) -> (r: Result<T, SerError>)
        ensures match Self::decoded(old(buf).rest()) {
            Some((v, n)) => r == Ok::<T, SerError>(v) && n <= old(buf).rest().len() && final(buf).rest() == old(buf).rest().skip(n as int),
            None => r is Err,
        };
}

// ---- texts
impl Text {
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == self.raw(),
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self.raw().len(), r <= 0xfff_ffff_ffff_ffff,
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.raw().len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    fn from_utf8(v: Vec<u8>) -> (r: Result<Text, SerError>)
        ensures match text_of(v@) { Some(t) => r == Ok::<Text, SerError>(t), None => r is Err },
    { unimplemented!() }
}
#[verifier::external_body]
fn zeros(n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n,
{ vec![0; n] }

impl Serialisable for Text {
    spec fn id(&self) -> SerId { STR }
    spec fn wire(&self) -> Seq<u8> { be64(self.raw().len() as u64) + self.raw() }
    spec fn fits(&self) -> bool { true }
    spec fn exact_hint(&self) -> bool { true }
    spec fn sound(&self) -> bool { true }
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for String :: ser_id */
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for String :: size_hint */
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for String :: serialise */
}
/*@ const core/src/serialisation/default_serialisers.rs STR */
/*@ const core/src/serialisation/default_serialisers.rs U64 */
/*@ const core/src/serialisation/default_serialisers.rs UNIT */
/*@ const core/src/serialisation/default_serialisers.rs SYSTEM_PATH */
/*@ const core/src/serialisation/default_serialisers.rs ACTOR_PATH */
/*@ const core/src/serialisation/default_serialisers.rs DISPATCH_ENVELOPE */
/*@ const core/src/serialisation/default_serialisers.rs UNIQUE_PATH */
/*@ const core/src/serialisation/default_serialisers.rs NAMED_PATH */
/*@ const core/src/serialisation/default_serialisers.rs SERDE */
/*@ const core/src/serialisation/default_serialisers.rs PBUF */
/*@ const core/src/serialisation/default_serialisers.rs UNKNOWN */
//@ subst serialisation_ids::STR => STR
//@ subst serialisation_ids::U64 => U64
//@ subst serialisation_ids::UNIT => UNIT
//@ subst serialisation_ids::SYSTEM_PATH => SYSTEM_PATH
//@ subst serialisation_ids::ACTOR_PATH => ACTOR_PATH
//@ subst vec![0; len] => zeros(len)
//@ subst vec![0u8; name_len] => zeros(name_len)
//@ subst data.as_mut_slice() => &mut data
//@ subst len_u64.try_into() => to_usize(len_u64)
#[verifier::external_body]
fn to_usize(x: u64) -> (r: Result<usize, SerError>)
    ensures match r { Ok(y) => y == x, Err(_) => x > usize::MAX },
{ unimplemented!() }
impl Deserialiser<Text> for Text {
    /*@ const core/src/serialisation/default_serialisers.rs :: impl Deserialiser<String> for String :: SER_ID */
    spec fn decoded(s: Seq<u8>) -> Option<(Text, nat)> {
        if s.len() < 8 { None } else {
            let n = un64(s.take(8)) as nat;
            if s.len() < 8 + n { None } else {
                match text_of(s.skip(8).take(n as int)) { Some(t) => Some((t, 8 + n)), None => None }
            }
        }
    }
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Deserialiser<String> for String :: deserialise */
}
impl Serialisable for u64 {
    spec fn id(&self) -> SerId { U64 }
    spec fn wire(&self) -> Seq<u8> { be64(*self) }
    spec fn fits(&self) -> bool { true }
    spec fn exact_hint(&self) -> bool { true }
    spec fn sound(&self) -> bool { true }
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for u64 :: ser_id */
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for u64 :: size_hint */
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for u64 :: serialise */
}
impl Deserialiser<u64> for u64 {
    /*@ const core/src/serialisation/default_serialisers.rs :: impl Deserialiser<u64> for u64 :: SER_ID */
    spec fn decoded(s: Seq<u8>) -> Option<(u64, nat)> {
        if s.len() < 8 { None } else { Some((un64(s.take(8)), 8)) }
    }
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Deserialiser<u64> for u64 :: deserialise */
}
impl Serialisable for () {
    spec fn id(&self) -> SerId { UNIT }
    spec fn wire(&self) -> Seq<u8> { Seq::empty() }
    spec fn fits(&self) -> bool { true }
    spec fn exact_hint(&self) -> bool { true }
    spec fn sound(&self) -> bool { true }
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for () :: ser_id */
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for () :: size_hint */
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Serialisable for () :: serialise */
}
impl Deserialiser<()> for () {
    /*@ const core/src/serialisation/default_serialisers.rs :: impl Deserialiser<()> for () :: SER_ID */
    spec fn decoded(s: Seq<u8>) -> Option<((), nat)> { Some(((), 0)) }
    /*@ fn core/src/serialisation/default_serialisers.rs :: impl Deserialiser<()> for () :: deserialise */
}

// ---- fields of bits
#[derive(Debug)]
enum FieldError { Overflow, TryFromErr }
trait BitField: Sized {
    const POS: usize;
    const WIDTH: usize;
    spec fn code(&self) -> u8;
    spec fn of(x: u8) -> Option<Self>;
    fn into(self) -> (r: u8)
        ensures r == self.code();
    fn try_from(x: u8) -> (r: Result<Self, SerError>)
        ensures match r { Ok(f) => Self::of(x) == Some(f), Err(_) => Self::of(x) is None };
}
spec fn bit(b: u8, i: int) -> u8 { (b >> (i as u8)) & 1 }
/// The lowest bits.
spec fn low(width: int) -> u8 { if width <= 0 { 0 } else { 0xffu8 >> ((8 - width) as u8) } }
spec fn field(b: u8, pos: int, width: int) -> u8 { (b >> (pos as u8)) & low(width) }
spec fn with_field(b: u8, pos: int, width: int, c: u8) -> u8 { (b & !(low(width) << (pos as u8))) | ((c & low(width)) << (pos as u8)) }

/*@ const core/src/messaging/bitfields.rs BITS_PER_BYTE */
/*@ fn core/src/messaging/bitfields.rs :: mod bit_twiddles :: get_bit
    requires pos < 8,
    ensures r == bit(*target, pos as int), r <= 1,
    @first proof { let p = pos as u8; let t = *target; assert((t >> p) & 1 <= 1) by (bit_vector); }
*/
/*@ fn core/src/messaging/bitfields.rs :: mod bit_twiddles :: set_bit_to
    requires pos < 8, val <= 1,
    ensures forall|k: int| 0 <= k < 8 ==> #[trigger] bit(*final(target), k) == if k == pos { val } else { bit(*old(target), k) },
    @first let ghost was = *target; proof { assert forall|k: u8| k < 8 implies #[trigger] bit((was & !(1u8 << (pos as u8))) | (val << (pos as u8)), k as int) == if k == pos { val } else { bit(was, k as int) } by { one_bit(was, pos as u8, val, k); } }
*/
proof fn one_bit(t: u8, p: u8, v: u8, k: u8)
    requires p < 8, k < 8, v <= 1,
    ensures (((t & !(1u8 << p)) | (v << p)) >> k) & 1 == if k == p { v } else { (t >> k) & 1 },
{
    assert((((t & !(1u8 << p)) | (v << p)) >> k) & 1 == if k == p { v } else { (t >> k) & 1 }) by (bit_vector) requires p < 8, k < 8, v <= 1;
}
spec fn fits_in(pos: int, width: int) -> bool { width <= 8 && pos + width <= 8 }
trait BitFieldExt: Sized {
    spec fn byte(&self) -> u8;
    fn check_field<Field>(&self) -> (r: Result<(), FieldError>)
        where Field: BitField
        requires Field::POS + Field::WIDTH <= usize::MAX,
        ensures r is Ok == fits_in(Field::POS as int, Field::WIDTH as int);
    fn store<Field>(&mut self, field: Field) -> (r: Result<(), FieldError>)
        where Field: BitField
        requires Field::POS + Field::WIDTH <= usize::MAX,
        ensures r is Ok == fits_in(Field::POS as int, Field::WIDTH as int),
            r is Ok ==> final(self).byte() == with_field(old(self).byte(), Field::POS as int, Field::WIDTH as int, field.code());
    fn get_as<Field>(&self) -> (r: Result<Field, FieldError>)
        where Field: BitField
        requires Field::POS + Field::WIDTH <= usize::MAX,
        ensures !fits_in(Field::POS as int, Field::WIDTH as int) ==> r is Err,
            fits_in(Field::POS as int, Field::WIDTH as int) ==> match r {
                Ok(f) => Field::of(field(self.byte(), Field::POS as int, Field::WIDTH as int)) == Some(f),
                Err(_) => Field::of(field(self.byte(), Field::POS as int, Field::WIDTH as int)) is None,
            };
}
impl BitFieldExt for [u8; 1] {
    spec fn byte(&self) -> u8 { self[0] }
/*@ fn core/src/messaging/bitfields.rs :: impl BitFieldExt for [u8] :: check_field */
/*@ fn core/src/messaging/bitfields.rs :: impl BitFieldExt for [u8] :: store
    @first let ghost was = self[0];
    @loop 0 invariant it__.end == width, pos == Field::POS, width == Field::WIDTH, repr == field.code(), fits_in(pos as int, width as int), 0 <= it__.start <= it__.end,
            forall|k: int| 0 <= k < 8 ==> #[trigger] bit(self[0], k) == if pos <= k < pos + it__.start { bit(repr, k - pos) } else { bit(was, k) },
        decreases it__.end - it__.start,
    @before `Ok(())` proof { stored(was, self[0], repr, pos as u8, width as u8); }
*/
/*@ fn core/src/messaging/bitfields.rs :: impl BitFieldExt for [u8] :: get_as
    @before `while it__.start` proof { assert forall|k: u8| k < 8 implies #[trigger] bit(0u8, k as int) == 0 by { assert((0u8 >> k) & 1 == 0) by (bit_vector); } assert forall|k: int| 0 <= k < 8 implies #[trigger] bit(0u8, k) == 0 by { assert(bit(0u8, (k as u8) as int) == 0); } }
    @loop 0 invariant it__.end == width, pos == Field::POS, width == Field::WIDTH, fits_in(pos as int, width as int), 0 <= it__.start <= it__.end,
            forall|k: int| 0 <= k < 8 ==> #[trigger] bit(repr, k) == if k < it__.start { bit(self[0], pos + k) } else { 0 },
        decreases it__.end - it__.start,
    @before `(match Field::try_from` proof { gotten(self[0], repr, pos as u8, width as u8); }
*/
}
proof fn same_bits(a: u8, b: u8)
    requires forall|k: int| 0 <= k < 8 ==> #[trigger] bit(a, k) == bit(b, k),
    ensures a == b,
{
    assert(bit(a, 0) == bit(b, 0) && bit(a, 1) == bit(b, 1) && bit(a, 2) == bit(b, 2) && bit(a, 3) == bit(b, 3));
    assert(bit(a, 4) == bit(b, 4) && bit(a, 5) == bit(b, 5) && bit(a, 6) == bit(b, 6) && bit(a, 7) == bit(b, 7));
    assert(a == b) by (bit_vector) requires
        (a >> 0u8) & 1 == (b >> 0u8) & 1, (a >> 1u8) & 1 == (b >> 1u8) & 1, (a >> 2u8) & 1 == (b >> 2u8) & 1, (a >> 3u8) & 1 == (b >> 3u8) & 1,
        (a >> 4u8) & 1 == (b >> 4u8) & 1, (a >> 5u8) & 1 == (b >> 5u8) & 1, (a >> 6u8) & 1 == (b >> 6u8) & 1, (a >> 7u8) & 1 == (b >> 7u8) & 1;
}
proof fn stored(was: u8, now: u8, c: u8, pos: u8, width: u8)
    requires pos + width <= 8, forall|k: int| 0 <= k < 8 ==> #[trigger] bit(now, k) == if pos <= k < pos + width { bit(c, k - pos) } else { bit(was, k) },
    ensures now == with_field(was, pos as int, width as int, c),
{
    let m: u8 = low(width as int);
    let w = with_field(was, pos as int, width as int, c);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit(w, k) == bit(now, k) by {
        let j = k as u8;
        if width == 0 {
            assert((((was & !(0u8 << pos)) | ((c & 0) << pos)) >> j) & 1 == (was >> j) & 1) by (bit_vector);
        } else {
            let s = (8 - width) as u8;
            if pos <= k < pos + width {
                let d = (k - pos) as u8;
                assert((((was & !((0xffu8 >> s) << pos)) | ((c & (0xffu8 >> s)) << pos)) >> j) & 1 == (c >> d) & 1) by (bit_vector)
                    requires 1 <= width <= 8, s == 8 - width, pos <= j, j < pos + width, d == j - pos, j < 8;
            } else {
                assert((((was & !((0xffu8 >> s) << pos)) | ((c & (0xffu8 >> s)) << pos)) >> j) & 1 == (was >> j) & 1) by (bit_vector)
                    requires 1 <= width <= 8, s == 8 - width, pos + width <= 8, j < pos || j >= pos + width, j < 8;
            }
        }
    }
    same_bits(w, now);
}
proof fn gotten(b: u8, now: u8, pos: u8, width: u8)
    requires pos + width <= 8, forall|k: int| 0 <= k < 8 ==> #[trigger] bit(now, k) == if k < width { bit(b, pos + k) } else { 0 },
    ensures now == field(b, pos as int, width as int),
{
    let w = field(b, pos as int, width as int);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit(w, k) == bit(now, k) by {
        let j = k as u8;
        if width == 0 {
            assert((((b >> pos) & 0) >> j) & 1 == 0) by (bit_vector);
        } else {
            let s = (8 - width) as u8;
            if k < width {
                let d = (k + pos) as u8;
                assert((((b >> pos) & (0xffu8 >> s)) >> j) & 1 == (b >> d) & 1) by (bit_vector)
                    requires 1 <= width <= 8, s == 8 - width, pos + width <= 8, d == j + pos, j < width;
            } else {
                assert((((b >> pos) & (0xffu8 >> s)) >> j) & 1 == 0) by (bit_vector)
                    requires 1 <= width <= 8, s == 8 - width, j >= width, j < 8;
            }
        }
    }
    same_bits(w, now);
}

// ---- paths
//@ subst sys.address().into() => AddressType::from(sys.address())
//@ subst crate::actors::validate_lookup_path( => validate_lookup_path(
//@ subst Vec<Text> => Names
//@ subst &[Text] => &Names
//@ subst Vec::new() => Names::new()
//@ subst u16::try_from( => to_u16(
//@ subst SerError::from_debug => not_text
//@ subst SerError::invalid_data(e.to_string()) => SerError::invalid_data(e)
//@ subst addr: &'a IpAddr => addr: &IpAddr
#[verifier::external_body]
fn to_u16(x: usize) -> (r: Result<u16, SerError>)
    ensures match r { Ok(y) => y == x, Err(_) => x > u16::MAX },
{ unimplemented!() }
fn not_text(e: SerError) -> SerError { e }
pub struct Ipv4Addr { b: [u8; 4] }
pub struct Ipv6Addr { b: [u8; 16] }
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
impl Ipv4Addr {
    fn octets(&self) -> (r: [u8; 4]) ensures r == self.b, { self.b }
}
impl Ipv6Addr {
    fn octets(&self) -> (r: [u8; 16]) ensures r == self.b, { self.b }
}
trait Octets: Sized {
    spec fn ip(self) -> IpAddr;
    fn make(self) -> (r: IpAddr) ensures r == self.ip();
}
impl Octets for [u8; 4] {
    spec fn ip(self) -> IpAddr { IpAddr::V4(Ipv4Addr { b: self }) }
    fn make(self) -> (r: IpAddr) { IpAddr::V4(Ipv4Addr { b: self }) }
}
impl Octets for [u8; 16] {
    spec fn ip(self) -> IpAddr { IpAddr::V6(Ipv6Addr { b: self }) }
    fn make(self) -> (r: IpAddr) { IpAddr::V6(Ipv6Addr { b: self }) }
}
impl IpAddr {
    fn from<T: Octets>(x: T) -> (r: IpAddr) ensures r == x.ip(), { x.make() }
    spec fn bytes(self) -> Seq<u8> { match self { IpAddr::V4(a) => a.b@, IpAddr::V6(a) => a.b@ } }
    spec fn code(self) -> u8 { match self { IpAddr::V4(_) => 0, IpAddr::V6(_) => 1 } }
}
pub struct Uuid { b: [u8; 16] }
impl Uuid {
    fn as_bytes(&self) -> (r: &[u8; 16]) ensures *r == self.b, { &self.b }
    fn from_bytes(b: [u8; 16]) -> (r: Uuid) ensures r.b == b, { Uuid { b } }
    fn clone(&self) -> (r: Uuid) ensures r == *self, { Uuid { b: self.b } }
}
/// The segments of a path.
pub struct Names { parts: Ghost<Seq<Text>> }
impl Names {
    #[verifier::external_body]
    fn new() -> (r: Names) ensures r.parts@ == Seq::<Text>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.parts@.len(), r <= isize::MAX / 24, { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.parts@.len() == 0), { unimplemented!() }
}
#[verifier::external_body]
fn joined(p: &Names) -> (r: Text)
    ensures r == join(p.parts@),
{ unimplemented!() }
#[verifier::external_body]
fn parse_path(s: &Text) -> (r: Names)
    ensures r.parts@ == split(*s),
{ unimplemented!() }
#[verifier::external_body]
fn validate_lookup_path(p: &Names) -> (r: Result<(), SerError>)
    ensures r is Ok == lookup(p.parts@),
{ unimplemented!() }

#[derive(Copy, Clone)]
/*@ enum core/src/actors/paths.rs Transport */
#[derive(Copy, Clone)]
/*@ enum core/src/messaging/framing.rs AddressType */
#[derive(Copy, Clone)]
/*@ enum core/src/messaging/framing.rs PathType */
/*@ struct core/src/actors/paths.rs SystemPath */
/*@ struct core/src/actors/paths.rs UniquePath */
/*@ struct core/src/actors/paths.rs NamedPath */
/*@ enum core/src/actors/paths.rs ActorPath */
/*@ struct core/src/messaging/framing.rs SystemPathHeader */

impl BitField for AddressType {
    /*@ const core/src/messaging/framing.rs :: impl BitField for AddressType :: POS */
    /*@ const core/src/messaging/framing.rs :: impl BitField for AddressType :: WIDTH */
    spec fn code(&self) -> u8 { match self { AddressType::IPv4 => 0, AddressType::IPv6 => 1, AddressType::Domain => 2 } }
    spec fn of(x: u8) -> Option<Self> { if x == 0 { Some(AddressType::IPv4) } else if x == 1 { Some(AddressType::IPv6) } else { None } }
    /*@ fn core/src/messaging/framing.rs :: impl Into<u8> for AddressType :: into */
    /*@ fn core/src/messaging/framing.rs :: impl TryFrom<u8> for AddressType :: try_from */
}
impl BitField for PathType {
    /*@ const core/src/messaging/framing.rs :: impl BitField for PathType :: POS */
    /*@ const core/src/messaging/framing.rs :: impl BitField for PathType :: WIDTH */
    spec fn code(&self) -> u8 { match self { PathType::Unique => 0, PathType::Named => 1 } }
    spec fn of(x: u8) -> Option<Self> { if x == 0 { Some(PathType::Unique) } else if x == 1 { Some(PathType::Named) } else { None } }
    /*@ fn core/src/messaging/framing.rs :: impl Into<u8> for PathType :: into */
    /*@ fn core/src/messaging/framing.rs :: impl TryFrom<u8> for PathType :: try_from */
}
impl BitField for Transport {
    /*@ const core/src/messaging/framing.rs :: impl BitField for Transport :: POS */
    /*@ const core/src/messaging/framing.rs :: impl BitField for Transport :: WIDTH */
    spec fn code(&self) -> u8 { match self { Transport::Local => 0, Transport::Tcp => 1, Transport::Udp => 2 } }
    spec fn of(x: u8) -> Option<Self> { if x == 0 { Some(Transport::Local) } else if x == 1 { Some(Transport::Tcp) } else if x == 2 { Some(Transport::Udp) } else { None } }
    /*@ fn core/src/messaging/framing.rs :: impl Into<u8> for Transport :: into */
    /*@ fn core/src/messaging/framing.rs :: impl TryFrom<u8> for Transport :: try_from */
}
impl AddressType {
    /*@ fn core/src/messaging/framing.rs :: impl<'a> From<&'a IpAddr> for AddressType :: from
        ensures r.code() == addr.code(), r.code() <= 1,
    */
}
impl SystemPath {
    /*@ fn core/src/actors/paths.rs :: impl SystemPath :: new
        ensures r == (SystemPath { protocol, address, port }),
    */
    /*@ fn core/src/actors/paths.rs :: impl SystemPath :: protocol
        ensures r == self.protocol,
    */
    /*@ fn core/src/actors/paths.rs :: impl SystemPath :: address
        ensures *r == self.address,
    */
    /*@ fn core/src/actors/paths.rs :: impl SystemPath :: port
        ensures r == self.port,
    */
}
trait SystemField {
    spec fn sys(&self) -> SystemPath;
    fn system(&self) -> (r: &SystemPath)
        ensures *r == self.sys();
    /*@ fn core/src/actors/paths.rs :: trait SystemField :: protocol
        ensures r == self.sys().protocol,
    */
    /*@ fn core/src/actors/paths.rs :: trait SystemField :: address
        ensures *r == self.sys().address,
    */
    /*@ fn core/src/actors/paths.rs :: trait SystemField :: port
        ensures r == self.sys().port,
    */
}
impl SystemField for SystemPath {
    spec fn sys(&self) -> SystemPath { *self }
    /*@ fn core/src/actors/paths.rs :: impl SystemField for SystemPath :: system */
}
impl SystemField for UniquePath {
    spec fn sys(&self) -> SystemPath { self.system }
    /*@ fn core/src/actors/paths.rs :: impl SystemField for UniquePath :: system */
}
impl SystemField for NamedPath {
    spec fn sys(&self) -> SystemPath { self.system }
    /*@ fn core/src/actors/paths.rs :: impl SystemField for NamedPath :: system */
}
impl SystemField for ActorPath {
    spec fn sys(&self) -> SystemPath { match self { ActorPath::Unique(p) => p.system, ActorPath::Named(p) => p.system } }
    /*@ fn core/src/actors/paths.rs :: impl SystemField for ActorPath :: system */
}
impl UniquePath {
    /*@ fn core/src/actors/paths.rs :: impl UniquePath :: with_system
        ensures r == (UniquePath { system, id }),
    */
    #[verifier::external_body]
    fn id(&self) -> (r: Uuid)
        ensures r == self.id,
    { unimplemented!() }
}
impl NamedPath {
    /*@ fn core/src/actors/paths.rs :: impl NamedPath :: with_system
        requires lookup(path.parts@),
        ensures r == (NamedPath { system, path }),
    */
    /*@ fn core/src/actors/paths.rs :: impl NamedPath :: path_ref
        ensures *r == self.path,
    */
}
/// The first byte: one bit of the kind of path, two of the kind of address, five of the protocol.
spec fn head(sys: SystemPath, kind: u8) -> u8 { with_field(with_field(with_field(0, 7, 1, kind), 0, 5, sys.protocol.code()), 5, 2, sys.address.code()) }
proof fn heads(sys: SystemPath, kind: u8)
    requires kind <= 1,
    ensures field(head(sys, kind), 7, 1) == kind, field(head(sys, kind), 0, 5) == sys.protocol.code(), field(head(sys, kind), 5, 2) == sys.address.code(),
{
    let p = sys.protocol.code();
    let a = sys.address.code();
    let h = head(sys, kind);
    assert(0xffu8 >> 7u8 == 1 && 0xffu8 >> 6u8 == 3 && 0xffu8 >> 3u8 == 31) by (bit_vector);
    assert(h == (((((0u8 & !(1u8 << 7u8)) | ((kind & 1) << 7u8)) & !(31u8 << 0u8)) | ((p & 31) << 0u8)) & !(3u8 << 5u8)) | ((a & 3) << 5u8));
    assert((h >> 7u8) & 1 == kind && (h >> 0u8) & 31 == p && (h >> 5u8) & 3 == a) by (bit_vector)
        requires h == (((((0u8 & !(1u8 << 7u8)) | ((kind & 1) << 7u8)) & !(31u8 << 0u8)) | ((p & 31) << 0u8)) & !(3u8 << 5u8)) | ((a & 3) << 5u8), kind <= 1, p <= 2, a <= 1;
}
spec fn sys_wire(sys: SystemPath, kind: u8) -> Seq<u8> { seq![head(sys, kind)] + sys.address.bytes() + be16(sys.port) }
spec fn sys_decoded(s: Seq<u8>) -> Option<(PathType, SystemPath, nat)> {
    if s.len() < 1 { None } else {
        match (PathType::of(field(s[0], 7, 1)), Transport::of(field(s[0], 0, 5)), AddressType::of(field(s[0], 5, 2))) {
            (Some(kind), Some(protocol), Some(at)) => {
                let n: int = if at is IPv4 { 4 } else { 16 };
                if s.len() < 3 + n { None } else {
                    Some((kind, SystemPath { protocol, address: ip_of(s.skip(1).take(n)), port: un16(s.skip(1 + n).take(2)) }, (3 + n) as nat))
                }
            }
            _ => None,
        }
    }
}
spec fn ip_of(s: Seq<u8>) -> IpAddr {
    if s.len() == 4 { of4(s).ip() } else { of16(s).ip() }
}
impl SystemPathHeader {
    /*@ fn core/src/messaging/framing.rs :: impl SystemPathHeader :: from_path
        ensures r.storage@ == seq![head(sys.sys(), if sys is Unique { 0 } else { 1 })],
    */
    /*@ fn core/src/messaging/framing.rs :: impl SystemPathHeader :: from_system
        ensures r.storage@ == seq![head(*sys, 0)],
    */
    /*@ fn core/src/messaging/framing.rs :: impl SystemPathHeader :: put_into
        ensures final(buf).written() == old(buf).written() + self.storage@,
    */
    /*@ fn core/src/messaging/framing.rs :: impl TryFrom<u8> for SystemPathHeader :: try_from
        ensures match r {
            Ok(h) => Some(h.path_type) == PathType::of(field(value, 7, 1)) && Some(h.protocol) == Transport::of(field(value, 0, 5)) && Some(h.address_type) == AddressType::of(field(value, 5, 2)),
            Err(_) => PathType::of(field(value, 7, 1)) is None || Transport::of(field(value, 0, 5)) is None || AddressType::of(field(value, 5, 2)) is None,
        },
    */
}
/*@ fn core/src/messaging/framing.rs :: - :: system_path_put_into_buf
    ensures final(buf).written() == old(buf).written() + path.address.bytes() + be16(path.port),
*/
/*@ fn core/src/messaging/framing.rs :: - :: system_path_from_buf
    ensures match sys_decoded(old(buf).rest()) {
            Some((k, p, n)) => n <= old(buf).rest().len() && final(buf).rest() == old(buf).rest().skip(n as int) && match r { Ok(x) => x.0.path_type == k && x.1 == p, Err(_) => false },
            None => r is Err,
        },
*/
impl Serialisable for SystemPath {
    spec fn id(&self) -> SerId { SYSTEM_PATH }
    spec fn wire(&self) -> Seq<u8> { sys_wire(*self, 0) }
    spec fn fits(&self) -> bool { true }
    spec fn exact_hint(&self) -> bool { true }
    spec fn sound(&self) -> bool { true }
    /*@ fn core/src/messaging/framing.rs :: impl Serialisable for SystemPath :: ser_id */
    /*@ fn core/src/messaging/framing.rs :: impl Serialisable for SystemPath :: size_hint */
    /*@ fn core/src/messaging/framing.rs :: impl Serialisable for SystemPath :: serialise */
}
impl Deserialiser<SystemPath> for SystemPath {
    /*@ const core/src/messaging/framing.rs :: impl Deserialiser<SystemPath> for SystemPath :: SER_ID */
    spec fn decoded(s: Seq<u8>) -> Option<(SystemPath, nat)> { match sys_decoded(s) { Some((_, p, n)) => Some((p, n)), None => None } }
    /*@ fn core/src/messaging/framing.rs :: impl Deserialiser<SystemPath> for SystemPath :: deserialise */
}
impl Serialisable for ActorPath {
    spec fn id(&self) -> SerId { ACTOR_PATH }
    spec fn wire(&self) -> Seq<u8> {
        match self {
            ActorPath::Unique(p) => sys_wire(p.system, 0) + p.id.b@,
            ActorPath::Named(p) => sys_wire(p.system, 1) + be16(join(p.path.parts@).raw().len() as u16) + join(p.path.parts@).raw(),
        }
    }
    spec fn fits(&self) -> bool { match self { ActorPath::Unique(_) => true, ActorPath::Named(p) => join(p.path.parts@).raw().len() <= 0xffff } }
    spec fn exact_hint(&self) -> bool { self is Unique }
    spec fn sound(&self) -> bool { match self { ActorPath::Unique(_) => true, ActorPath::Named(p) => lookup(p.path.parts@) } }
    /*@ fn core/src/messaging/framing.rs :: impl Serialisable for ActorPath :: ser_id */
    /*@ fn core/src/messaging/framing.rs :: impl Serialisable for ActorPath :: size_hint */
    /*@ fn core/src/messaging/framing.rs :: impl Serialisable for ActorPath :: serialise */
}
impl Deserialiser<ActorPath> for ActorPath {
    /*@ const core/src/messaging/framing.rs :: impl Deserialiser<ActorPath> for ActorPath :: SER_ID */
    spec fn decoded(s: Seq<u8>) -> Option<(ActorPath, nat)> {
        match sys_decoded(s) {
            None => None,
            Some((kind, system, n)) => if kind is Unique {
                if s.len() < n + 16 { None } else { Some((ActorPath::Unique(UniquePath { system, id: Uuid { b: of16(s.skip(n as int).take(16)) } }), n + 16)) }
            } else if s.len() < n + 2 { None } else {
                let m = un16(s.skip(n as int).take(2)) as nat;
                if s.len() < n + 2 + m { None } else {
                    match text_of(s.skip((n + 2) as int).take(m as int)) {
                        None => None,
                        Some(t) => {
                            let parts = if t.raw().len() == 0 { Seq::empty() } else { split(t) };
                            if lookup(parts) { Some((ActorPath::Named(NamedPath { system, path: Names { parts: Ghost(parts) } }), n + 2 + m)) } else { None }
                        }
                    }
                }
            },
        }
    }
    /*@ fn core/src/messaging/framing.rs :: impl Deserialiser<ActorPath> for ActorPath :: deserialise */
}

// ---- what was written is what is read
proof fn text_back(v: Text, rest: Seq<u8>)
    requires v.raw().len() <= u64::MAX,
    ensures <Text as Deserialiser<Text>>::decoded(v.wire() + rest) == Some((v, v.wire().len())), <Text as Deserialiser<Text>>::SER_ID == v.id(),
{
    let s = v.wire() + rest;
    assert(s.take(8) =~= be64(v.raw().len() as u64));
    assert(s.skip(8).take(v.raw().len() as int) =~= v.raw());
}
proof fn number_back(v: u64, rest: Seq<u8>)
    ensures <u64 as Deserialiser<u64>>::decoded(v.wire() + rest) == Some((v, v.wire().len())), <u64 as Deserialiser<u64>>::SER_ID == v.id(),
{
    assert((v.wire() + rest).take(8) =~= be64(v));
}
proof fn unit_back(v: (), rest: Seq<u8>)
    ensures <() as Deserialiser<()>>::decoded(v.wire() + rest) == Some((v, v.wire().len())), <() as Deserialiser<()>>::SER_ID == v.id(),
{}
proof fn sys_back(v: SystemPath, kind: PathType, rest: Seq<u8>)
    requires kind.code() <= 1,
    ensures sys_decoded(sys_wire(v, kind.code()) + rest) == Some((kind, v, sys_wire(v, kind.code()).len())),
{
    let s = sys_wire(v, kind.code()) + rest;
    heads(v, kind.code());
    let n = v.address.bytes().len() as int;
    assert(s[0] == head(v, kind.code()));
    assert(s.skip(1).take(n) =~= v.address.bytes());
    assert(s.skip(1 + n).take(2) =~= be16(v.port));
    match v.address { IpAddr::V4(a) => { axioms::arrays4(a.b); } IpAddr::V6(a) => { axioms::arrays16(a.b); } }
}
proof fn system_path_back(v: SystemPath, rest: Seq<u8>)
    ensures <SystemPath as Deserialiser<SystemPath>>::decoded(v.wire() + rest) == Some((v, v.wire().len())), <SystemPath as Deserialiser<SystemPath>>::SER_ID == v.id(),
{
    sys_back(v, PathType::Unique, rest);
}
proof fn actor_path_back(v: ActorPath, rest: Seq<u8>)
    requires v.sound(), v.fits(),
    ensures <ActorPath as Deserialiser<ActorPath>>::decoded(v.wire() + rest) == Some((v, v.wire().len())), <ActorPath as Deserialiser<ActorPath>>::SER_ID == v.id(),
{
    let s = v.wire() + rest;
    match v {
        ActorPath::Unique(p) => {
            let n = sys_wire(p.system, 0).len() as int;
            sys_back(p.system, PathType::Unique, p.id.b@ + rest);
            assert(sys_wire(p.system, 0) + (p.id.b@ + rest) =~= s);
            assert(s.skip(n).take(16) =~= p.id.b@);
            axioms::arrays16(p.id.b);
        }
        ActorPath::Named(p) => {
            let n = sys_wire(p.system, 1).len() as int;
            let t = join(p.path.parts@);
            sys_back(p.system, PathType::Named, be16(t.raw().len() as u16) + t.raw() + rest);
            assert(sys_wire(p.system, 1) + (be16(t.raw().len() as u16) + t.raw() + rest) =~= s);
            assert(s.skip(n).take(2) =~= be16(t.raw().len() as u16));
            assert(s.skip(n + 2).take(t.raw().len() as int) =~= t.raw());
            assert(Seq::<Text>::empty() =~= p.path.parts@ || p.path.parts@.len() > 0);
        }
    }
}
spec fn ids() -> Seq<SerId> { seq![UNKNOWN, DISPATCH_ENVELOPE, UNIQUE_PATH, NAMED_PATH, SYSTEM_PATH, ACTOR_PATH, STR, U64, UNIT, SERDE, PBUF] }
proof fn ids_differ()
    ensures ids().no_duplicates(),
{}

// ---- messages
//@ subst Vec<u8> = Names::new() => Sink = Sink::new()
//@ subst Box<dyn Serialisable> => Parcel
//@ subst Box<dyn Any + Send + 'static> => Local
//@ subst Box<dyn Any + Send> => Local
//@ subst bytes::Bytes => Bytes
//@ subst UnpackError::NoCast) => no_cast)
//@ subst UnpackError::DeserError) => deser_error)
fn no_cast<X>(l: Local) -> (r: UnpackError<X>) ensures r == UnpackError::<X>::NoCast(l), { UnpackError::NoCast(l) }
fn deser_error<X>(e: SerError) -> (r: UnpackError<X>) ensures r == UnpackError::<X>::DeserError(e), { UnpackError::DeserError(e) }
#[verifier::external_body]
pub struct SessionId { x: usize }
impl Clone for SessionId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Copy for SessionId {}
impl ActorPath {
    #[verifier::external_body]
    fn clone(&self) -> (r: ActorPath) ensures r == *self, { unimplemented!() }
}
/// A value that can be written, behind a pointer.
#[verifier::external_body]
pub struct Parcel { x: usize }
/// Any value at all, behind a pointer.
#[verifier::external_body]
pub struct Local { x: usize }
impl Local {
    uninterp spec fn holds<T>(self) -> Option<T>;
    #[verifier::external_body]
    fn downcast<T>(self) -> (r: Result<Box<T>, Local>)
        ensures match self.holds::<T>() { Some(t) => r is Ok && *(r->Ok_0) == t, None => r == Err::<Box<T>, Local>(self) },
    { unimplemented!() }
}
impl Parcel {
    uninterp spec fn as_local(self) -> Result<Local, Parcel>;
    uninterp spec fn id_(self) -> SerId;
    uninterp spec fn wire_(self) -> Seq<u8>;
    uninterp spec fn fits_(self) -> bool;
    uninterp spec fn hint_(self) -> Option<usize>;
    #[verifier::external_body]
    fn local(self) -> (r: Result<Local, Parcel>)
        ensures r == self.as_local(),
    { unimplemented!() }
    fn deref(&self) -> (r: &Parcel) ensures *r == *self, { self }
}
impl Serialisable for Parcel {
    spec fn id(&self) -> SerId { self.id_() }
    spec fn wire(&self) -> Seq<u8> { self.wire_() }
    spec fn fits(&self) -> bool { self.fits_() }
    spec fn exact_hint(&self) -> bool { false }
    spec fn sound(&self) -> bool { true }
    #[verifier::external_body]
    fn ser_id(&self) -> SerId { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    fn serialise<W: BufMut>(&self, buf: &mut W) -> Result<(), SerError> { unimplemented!() }
}

#[verifier::external_body]
pub struct Bytes { x: usize }
impl Bytes { uninterp spec fn held(&self) -> Seq<u8>; 
    #[verifier::external_body]
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self).held().len(),
        ensures r.held() == old(self).held().take(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8])
        ensures r@ == self.held().take(r@.len() as int), r@.len() <= self.held().len(), r@.len() == self.held().len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn from(s: Sink) -> (r: Bytes) ensures r.held() == s.held(), { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Bytes) ensures r == *self, { unimplemented!() }
 }
impl Buf for Bytes {
    spec fn rest(&self) -> Seq<u8> { self.held() }
    #[verifier::external_body]
    fn remaining(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, cnt: usize) { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_slice<M: Memory>(&mut self, dst: &mut M) { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u8(&mut self) -> Result<u8, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u16(&mut self) -> Result<u16, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u64(&mut self) -> Result<u64, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn get_ser_id(&mut self) -> SerId { unimplemented!() }
}
#[verifier::external_body]
pub struct ChunkLease { x: usize }
impl ChunkLease { uninterp spec fn held(&self) -> Seq<u8>; 
    uninterp spec fn total(&self) -> nat;
    #[verifier::external_body]
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self).held().len(),
        ensures r.held() == old(self).held().take(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8])
        ensures r@ == self.held().take(r@.len() as int), r@.len() <= self.held().len(), 
    { unimplemented!() }

    #[verifier::external_body]
    fn capacity(&self) -> (r: usize) ensures r == self.total(), r <= isize::MAX, { unimplemented!() }
    /// The head goes to the place left for it in the first chunk.
    #[verifier::external_body]
    fn insert_head(&mut self, head: FrameHead)
        requires old(self).held().len() >= FRAME_HEAD_LEN, old(self).total() == old(self).held().len(),
        ensures final(self).held() == head.wire() + old(self).held().skip(FRAME_HEAD_LEN as int), final(self).total() == old(self).total(),
    { unimplemented!() }
    #[verifier::external_body]
    fn into_chunk_ref(self) -> (r: ChunkRef) ensures r.held() == self.held(), r.total() == r.held().len(), { unimplemented!() }
    #[verifier::external_body]
    fn into_chunk_ref_with_tail(self, tail: ChunkRef) -> (r: ChunkRef) ensures r.held() == self.held() + tail.held(), r.total() == r.held().len(), { unimplemented!() }
    #[verifier::external_body]
    fn create_byte_clone(&self) -> (r: Bytes) ensures r.held() == self.held(), { unimplemented!() }
 }
impl Buf for ChunkLease {
    spec fn rest(&self) -> Seq<u8> { self.held() }
    #[verifier::external_body]
    fn remaining(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, cnt: usize) { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_slice<M: Memory>(&mut self, dst: &mut M) { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u8(&mut self) -> Result<u8, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u16(&mut self) -> Result<u16, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u64(&mut self) -> Result<u64, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn get_ser_id(&mut self) -> SerId { unimplemented!() }
}
#[verifier::external_body]
pub struct ChunkRef { x: usize }
impl ChunkRef { uninterp spec fn held(&self) -> Seq<u8>; 
    uninterp spec fn total(&self) -> nat;
    #[verifier::external_body]
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self).held().len(),
        ensures r.held() == old(self).held().take(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8])
        ensures r@ == self.held().take(r@.len() as int), r@.len() <= self.held().len(), 
    { unimplemented!() }

    #[verifier::external_body]
    fn capacity(&self) -> (r: usize) ensures r == self.total(), r <= isize::MAX, { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: ChunkRef) ensures r == *self, { unimplemented!() }
 }
impl Buf for ChunkRef {
    spec fn rest(&self) -> Seq<u8> { self.held() }
    #[verifier::external_body]
    fn remaining(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, cnt: usize) { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_slice<M: Memory>(&mut self, dst: &mut M) { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u8(&mut self) -> Result<u8, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u16(&mut self) -> Result<u16, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u64(&mut self) -> Result<u64, SerError> { unimplemented!() }
    #[verifier::external_body]
    fn get_ser_id(&mut self) -> SerId { unimplemented!() }
}
#[verifier::external_body]
pub struct Sink { x: usize }
impl Sink { uninterp spec fn held(&self) -> Seq<u8>; 
    #[verifier::external_body]
    fn new() -> (r: Sink) ensures r.held() == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Sink) ensures r.held() == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn freeze(self) -> (r: Bytes) ensures r.held() == self.held(), { unimplemented!() }
 }
impl BufMut for Sink {
    spec fn written(&self) -> Seq<u8> { self.held() }
    uninterp spec fn room(&self) -> nat;
    #[verifier::external_body]
    fn remaining_mut(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn put_u8(&mut self, x: u8) { unimplemented!() }
    #[verifier::external_body]
    fn put_u16(&mut self, x: u16) { unimplemented!() }
    #[verifier::external_body]
    fn put_u32(&mut self, x: u32) { unimplemented!() }
    #[verifier::external_body]
    fn put_u64(&mut self, x: u64) { unimplemented!() }
    #[verifier::external_body]
    fn put_ser_id(&mut self, x: SerId) { unimplemented!() }
    #[verifier::external_body]
    fn put_slice<M: Memory + ?Sized>(&mut self, src: &M) { unimplemented!() }
    #[verifier::external_body]
    fn put<B: Buf>(&mut self, src: B) { unimplemented!() }
}
#[verifier::external_body]
pub struct BufferEncoder { x: usize }
impl BufferEncoder { uninterp spec fn held(&self) -> Seq<u8>; 
    #[verifier::external_body]
    fn pad(&mut self, cnt: usize)
        ensures final(self).held().len() == old(self).held().len() + cnt, final(self).held().take(old(self).held().len() as int) == old(self).held(),
    { unimplemented!() }
    #[verifier::external_body]
    fn try_reserve(&mut self, size: usize) -> (r: Result<(), SerError>)
        ensures final(self).held() == old(self).held(),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_chunk_lease(&mut self) -> (r: Result<ChunkLease, SerError>)
        ensures r matches Ok(c) ==> c.held() == old(self).held() && c.total() == c.held().len() && c.held().len() > 0,
    { unimplemented!() }
 }
impl BufMut for BufferEncoder {
    spec fn written(&self) -> Seq<u8> { self.held() }
    uninterp spec fn room(&self) -> nat;
    #[verifier::external_body]
    fn remaining_mut(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn put_u8(&mut self, x: u8) { unimplemented!() }
    #[verifier::external_body]
    fn put_u16(&mut self, x: u16) { unimplemented!() }
    #[verifier::external_body]
    fn put_u32(&mut self, x: u32) { unimplemented!() }
    #[verifier::external_body]
    fn put_u64(&mut self, x: u64) { unimplemented!() }
    #[verifier::external_body]
    fn put_ser_id(&mut self, x: SerId) { unimplemented!() }
    #[verifier::external_body]
    fn put_slice<M: Memory + ?Sized>(&mut self, src: &M) { unimplemented!() }
    #[verifier::external_body]
    fn put<B: Buf>(&mut self, src: B) { unimplemented!() }
}

/*@ const core/src/net/frames.rs FRAME_HEAD_LEN */
/*@ const core/src/net/frames.rs MAGIC_NUM */
#[derive(Copy, Clone)]
/*@ enum core/src/net/frames.rs FrameType */
/*@ struct core/src/net/frames.rs FrameHead */
impl FrameHead {
    spec fn wire(&self) -> Seq<u8> { be32(MAGIC_NUM) + be32(self.content_length as u32) + seq![self.frame_type as u8] }
    /*@ fn core/src/net/frames.rs :: impl FrameHead :: new
        ensures r == (FrameHead { frame_type, content_length }),
    */
    /*@ fn core/src/net/frames.rs :: impl FrameHead :: encode_into
        requires old(dst).room() >= FRAME_HEAD_LEN,
        ensures final(dst).written() =~= old(dst).written() + old(self).wire(), *final(self) == *old(self),
    */
}
/*@ struct core/src/messaging/net_message.rs NetMessage */
/*@ struct core/src/messaging/net_message.rs NetData */
/*@ enum core/src/messaging/net_message.rs HeapOrSer */
/*@ struct core/src/messaging/net_message.rs DeserialisedMessage */
/*@ enum core/src/messaging/net_message.rs UnpackError */
impl HeapOrSer {
    spec fn bytes(&self) -> Seq<u8> {
        match self { HeapOrSer::Boxed(p) => p.wire(), HeapOrSer::Serialised(b) => b.held(), HeapOrSer::ChunkLease(c) => c.held(), HeapOrSer::ChunkRef(c) => c.held() }
    }
}
/// What comes of unpacking: the very value that was sent if it never left the heap, and otherwise what the deserialiser makes of the bytes.
spec fn unpacked<T, D: Deserialiser<T>, X>(d: HeapOrSer, r: Result<T, UnpackError<X>>) -> bool {
    match d {
        HeapOrSer::Boxed(p) => match p.as_local() {
            Err(_) => r is Err && r->Err_0 is DeserError,
            Ok(l) => match l.holds::<T>() { Some(t) => r == Ok::<T, UnpackError<X>>(t), None => r == Err::<T, UnpackError<X>>(UnpackError::NoCast(l)) },
        },
        _ => match D::decoded(d.bytes()) { Some((t, _)) => r == Ok::<T, UnpackError<X>>(t), None => r is Err && r->Err_0 is DeserError },
    }
}
impl NetMessage {
    spec fn of(sender: ActorPath, receiver: ActorPath, ser_id: SerId, data: HeapOrSer) -> NetMessage { NetMessage { sender, receiver, data: NetData { ser_id, data }, session: None } }
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: with_box
        ensures r == NetMessage::of(sender, receiver, ser_id, HeapOrSer::Boxed(data)),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: with_bytes
        ensures r == NetMessage::of(sender, receiver, ser_id, HeapOrSer::Serialised(data)),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: with_chunk_lease
        ensures r == NetMessage::of(sender, receiver, ser_id, HeapOrSer::ChunkLease(data)),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: with_chunk_ref
        ensures r == NetMessage::of(sender, receiver, ser_id, HeapOrSer::ChunkRef(data)),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: sender
        ensures *r == self.sender,
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: session
        ensures r == self.session,
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: set_session
        ensures *final(self) == (NetMessage { session: Some(session), ..*old(self) }),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: ser_id
        ensures *r == self.data.ser_id,
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: try_into_deserialised
        ensures self.data.ser_id != D::SER_ID ==> r == Err::<DeserialisedMessage<T>, UnpackError<NetMessage>>(UnpackError::NoIdMatch(self)),
            self.data.ser_id == D::SER_ID ==> match r {
                Ok(m) => m.sender == self.sender && m.receiver == self.receiver && unpacked::<T, D, NetMessage>(self.data.data, Ok(m.content)),
                Err(e) => unpacked::<T, D, NetMessage>(self.data.data, Err(e)),
            },
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: try_deserialise
        ensures self.data.ser_id != D::SER_ID ==> r == Err::<T, UnpackError<NetMessage>>(UnpackError::NoIdMatch(self)),
            self.data.ser_id == D::SER_ID ==> unpacked::<T, D, NetMessage>(self.data.data, r),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetMessage :: try_deserialise_unchecked
        ensures unpacked::<T, D, NetMessage>(self.data.data, r),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl TryClone for NetMessage :: try_clone
        ensures match r { Ok(m) => m.sender == self.sender && m.receiver == self.receiver && m.session == self.session && m.data.ser_id == self.data.ser_id && m.data.data.bytes() == self.data.data.bytes() && !(m.data.data is Boxed), Err(_) => self.data.data is Boxed && !(self.data.data->Boxed_0.fits()) },
    */
}
impl NetData {
    /*@ fn core/src/messaging/net_message.rs :: impl NetData :: with
        ensures r == (NetData { ser_id, data }),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetData :: try_deserialise
        ensures self.ser_id != D::SER_ID ==> r == Err::<T, UnpackError<NetData>>(UnpackError::NoIdMatch(self)),
            self.ser_id == D::SER_ID ==> unpacked::<T, D, NetData>(self.data, r),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetData :: try_deserialise_unchecked
        ensures unpacked::<T, D, NetData>(self.data, r),
    */
    /*@ fn core/src/messaging/net_message.rs :: impl NetData :: ser_id
        ensures *r == self.ser_id,
    */
    /*@ fn core/src/messaging/net_message.rs :: impl TryClone for NetData :: try_clone
        ensures match r { Ok(m) => m.ser_id == self.ser_id && m.data.bytes() == self.data.bytes() && !(m.data is Boxed), Err(_) => self.data is Boxed && !(self.data->Boxed_0.fits()) },
    */
}
impl HeapOrSer {
    /*@ fn core/src/messaging/net_message.rs :: impl TryClone for HeapOrSer :: try_clone
        ensures match r { Ok(m) => m.bytes() == self.bytes() && !(m is Boxed), Err(_) => self is Boxed && !(self->Boxed_0.fits()) },
    */
}
impl<T> DeserialisedMessage<T> {
    /*@ fn core/src/messaging/net_message.rs :: impl<T> DeserialisedMessage<T> :: with
        ensures r == (DeserialisedMessage { sender, receiver, content }),
    */
}
impl<T> UnpackError<T> {
    /*@ fn core/src/messaging/net_message.rs :: impl<T> UnpackError<T> :: get
        ensures r == match self { UnpackError::NoIdMatch(t) => Some(t), _ => None },
    */
    /*@ fn core/src/messaging/net_message.rs :: impl<T> UnpackError<T> :: get_box
        ensures r == match self { UnpackError::NoCast(t) => Some(t), _ => None },
    */
}

// ---- writing and reading whole messages
//@ subst BytesMut => Sink
//@ subst std::mem::size_of::<SerId>() => 8
/// A message as it goes over the network.
spec fn framed(src: ActorPath, dst: ActorPath, data: Seq<u8>) -> Seq<u8> {
    let body = src.wire() + dst.wire() + data;
    FrameHead { frame_type: FrameType::Data, content_length: body.len() as usize }.wire() + body
}
spec fn read_as(m: NetMessage, bytes: Seq<u8>) -> bool {
    &&& m.session is None
    &&& !(m.data.data is Boxed)
    &&& match <ActorPath as Deserialiser<ActorPath>>::decoded(bytes) {
        None => false,
        Some((src, n)) => match <ActorPath as Deserialiser<ActorPath>>::decoded(bytes.skip(n as int)) {
            None => false,
            Some((dst, k)) => {
                let more = bytes.skip(n as int).skip(k as int);
                more.len() >= 8 && m.sender == src && m.receiver == dst && m.data.ser_id == un64(more.take(8)) && m.data.data.bytes() == more.skip(8)
            }
        }
    }
}
spec fn readable(bytes: Seq<u8>) -> bool {
    match <ActorPath as Deserialiser<ActorPath>>::decoded(bytes) {
        None => false,
        Some((src, n)) => match <ActorPath as Deserialiser<ActorPath>>::decoded(bytes.skip(n as int)) {
            None => false,
            Some((dst, k)) => bytes.skip(n as int).skip(k as int).len() >= 8,
        }
    }
}
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: serialise_to_msg
    ensures r matches Ok(m) ==> m.sender == src && m.receiver == dst && m.data.ser_id == msg.id() && m.data.data is Serialised && m.data.data.bytes() == msg.wire(),
*/
/*@ struct core/src/messaging/serialised.rs Serialised */
/// Something that writes values of another type.
trait Serialiser<T>: Sized {
    spec fn id(&self) -> SerId;
    spec fn wire(&self, v: T) -> Seq<u8>;
    spec fn fits(&self, v: T) -> bool;
    fn ser_id(&self) -> (r: SerId)
        ensures r == self.id();
    fn size_hint(&self) -> (r: Option<usize>);
    fn serialise<W: BufMut>(&self, v: &T, buf: &mut W) -> (r: Result<(), SerError>)
        ensures r is Ok == self.fits(*v), r is Ok ==> final(buf).written() == old(buf).written() + self.wire(*v);
}
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: serialise_to_serialised
    requires ser.sound(),
    ensures r matches Ok(s) ==> ser.fits() && s.ser_id == ser.id() && s.data.held() =~= ser.wire(), ser.exact_hint() && ser.fits() ==> r is Ok,
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: serialiser_to_serialised
    ensures r matches Ok(s) ==> ser.fits(*t) && s.ser_id == ser.id() && s.data.held() =~= ser.wire(*t),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: serialise_msg
    requires old(buf).held().len() == 0, src.sound(), dst.sound(), msg.sound(),
    ensures r matches Ok(c) ==> src.fits() && dst.fits() && msg.fits() && c.held() =~= framed(*src, *dst, be64(msg.id()) + msg.wire()),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: preserialise_msg
    requires old(buf).held().len() == 0, msg.sound(),
    ensures r matches Ok(c) ==> c.held() =~= be64(msg.id()) + msg.wire(),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: serialise_msg_with_preserialised
    requires old(buf).held().len() == 0, src.sound(), dst.sound(),
    ensures r matches Ok(c) ==> src.fits() && dst.fits() && c.held() =~= framed(*src, *dst, content.held()),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: embed_msg
    requires old(buf).held().len() == 0, msg.sender.sound(), msg.receiver.sound(),
    ensures r matches Ok(c) ==> msg.sender.fits() && msg.receiver.fits() && (msg.data.data is Boxed ==> msg.data.data->Boxed_0.fits()) && c.held() =~= framed(msg.sender, msg.receiver, be64(msg.data.ser_id) + msg.data.data.bytes()),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: read_ser_id
    ensures r is Ok == (old(buffer).rest().len() >= 8), r matches Ok(x) ==> x == un64(old(buffer).rest().take(8)) && final(buffer).rest() == old(buffer).rest().skip(8),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: deserialise_chunk_lease
    ensures r is Ok == readable(buffer.held()), r matches Ok(m) ==> read_as(m, buffer.held()),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: deserialise_chunk_ref
    ensures r is Ok == readable(buffer.held()), r matches Ok(m) ==> read_as(m, buffer.held()),
*/
/*@ fn core/src/serialisation/ser_helpers.rs :: - :: deserialise_bytes
    ensures r is Ok == readable(buffer.held()), r matches Ok(m) ==> read_as(m, buffer.held()),
*/

/// Any message written by the functions above is read, by those above, as what it was.
proof fn framed_back(src: ActorPath, dst: ActorPath, id: SerId, data: Seq<u8>, m: NetMessage)
    requires src.sound(), src.fits(), dst.sound(), dst.fits(),
    ensures ({
        let s = framed(src, dst, be64(id) + data);
        s.len() >= 9 && readable(s.skip(9)) && (read_as(m, s.skip(9)) ==> m.sender == src && m.receiver == dst && m.session is None && m.data.ser_id == id && m.data.data.bytes() == data && !(m.data.data is Boxed))
    }),
{
    let s = framed(src, dst, be64(id) + data);
    let body = src.wire() + dst.wire() + (be64(id) + data);
    assert(s.skip(9) =~= body);
    actor_path_back(src, dst.wire() + (be64(id) + data));
    assert(src.wire() + (dst.wire() + (be64(id) + data)) =~= body);
    actor_path_back(dst, be64(id) + data);
    assert(body.skip(src.wire().len() as int) =~= dst.wire() + (be64(id) + data));
    let more = body.skip(src.wire().len() as int).skip(dst.wire().len() as int);
    assert(more =~= be64(id) + data);
    assert(more.take(8) =~= be64(id));
    assert(more.skip(8) =~= data);
}
/// What was sent as `v` of a type that reads what it writes arrives as `v`.
proof fn arrives<T, D: Deserialiser<T>, X>(v: T, wire: Seq<u8>, m: NetMessage, r: Result<T, UnpackError<X>>)
    requires D::decoded(wire) == Some((v, wire.len())), m.data.data.bytes() == wire, !(m.data.data is Boxed), unpacked::<T, D, X>(m.data.data, r),
    ensures r == Ok::<T, UnpackError<X>>(v),
{}

/*@ enum core/src/messaging/serialised.rs SerialisedFrame */
/*@ enum core/src/messaging/dispatch.rs DispatchData */
//@ subst crate::serialisation::ser_helpers::serialise_msg => serialise_msg
//@ subst crate::serialisation::ser_helpers::embed_msg => embed_msg
impl SerialisedFrame {
    spec fn all(&self) -> Seq<u8> { match self { SerialisedFrame::Bytes(b) => b.held(), SerialisedFrame::ChunkLease(b) => b.held(), SerialisedFrame::ChunkRef(b) => b.held() } }
    /*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: is_empty
        ensures r == (self.all().len() == 0),
    */
    /*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: len
        ensures r == self.all().len(),
    */
    /*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: bytes
        ensures r@.len() <= self.all().len(), r@ == self.all().take(r@.len() as int), self is Bytes ==> r@.len() == self.all().len(),
    */
    /*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: make_contiguous
        ensures final(self).all() =~= old(self).all(),
    */
}
impl DispatchData {
    /// What is delivered within the system if this is not sent over the network.
    spec fn received(&self, m: NetMessage) -> bool {
        match self {
            DispatchData::Lazy(p, src, dst) => m == NetMessage::of(*src, *dst, p.id(), HeapOrSer::Boxed(*p)),
            DispatchData::Serialised(f) => read_as(m, f.all().skip(9)),
            DispatchData::NetMessage(n) => m == *n,
        }
    }
    /*@ fn core/src/messaging/dispatch.rs :: impl DispatchData :: into_local
        requires self matches DispatchData::Serialised(f) ==> f.all().len() >= 9 && readable(f.all().skip(9)),
        ensures r is Ok && self.received(r->Ok_0),
    */
    /*@ fn core/src/messaging/dispatch.rs :: impl DispatchData :: into_serialised
        requires old(buf).held().len() == 0, match self { DispatchData::Lazy(_, src, dst) => src.sound() && dst.sound(), DispatchData::Serialised(_) => true, DispatchData::NetMessage(n) => n.sender.sound() && n.receiver.sound() },
        ensures r matches Ok(f) ==> match self {
            DispatchData::Lazy(p, src, dst) => src.fits() && dst.fits() && f.all() == framed(src, dst, be64(p.id()) + p.wire()),
            DispatchData::Serialised(g) => f == g,
            DispatchData::NetMessage(n) => n.sender.fits() && n.receiver.fits() && f.all() == framed(n.sender, n.receiver, be64(n.data.ser_id) + n.data.data.bytes()),
        },
    */
}
fn main() {}
}
