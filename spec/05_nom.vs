// nom 4.2 (verbose-errors): the types the parsers return, copied from the dependency.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Needed { Unknown, Size(usize) }
pub enum ErrorKind<E = u32> { Custom(E), Tag, MapRes, MapOpt, Alt, IsNot, IsA, SeparatedList, SeparatedNonEmptyList, Many0, Many1, ManyTill, Count, TakeUntilAndConsume, TakeUntil, TakeUntilEitherAndConsume, TakeUntilEither, LengthValue, TagClosure, Alpha, Digit, HexDigit, OctDigit, AlphaNumeric, Space, MultiSpace, LengthValueFn, Eof, ExprOpt, ExprRes, CondReduce, Switch, TagBits, OneOf, NoneOf, Char, CrLf, RegexpMatch, RegexpMatches, RegexpFind, RegexpCapture, RegexpCaptures, TakeWhile1, Complete, Fix, Escaped, EscapedTransform, TagStr, IsNotStr, IsAStr, TakeWhile1Str, NonEmpty, ManyMN, TakeUntilAndConsumeStr, TakeUntilStr, Not, Permutation, Verify, TakeTill1, TakeUntilAndConsume1, TakeWhileMN, ParseTo, TooLarge, Many0Count, Many1Count }
pub enum Context<I, E = u32> { Code(I, ErrorKind<E>), List(Vec<(I, ErrorKind<E>)>) }
pub enum Err<I, E = u32> { Incomplete(Needed), Error(Context<I, E>), Failure(Context<I, E>) }
pub type IResult<I, O, E = u32> = Result<(I, O), Err<I, E>>;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum CompareResult { Ok, Incomplete, Error }
// (only so that Result::unwrap accepts the type)
#[verifier::external]
impl<I, E> std::fmt::Debug for Err<I, E> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
