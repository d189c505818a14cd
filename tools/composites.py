"""Composite types that every run covers: each arity, length, nesting and boundary count."""

TYPES = [
    "Option<bool>",
    "Option<()>",
    "Option<std::convert::Infallible>",
    "Option<Option<Option<u8>>>",
    "Option<char>",
    "Option<u32>",
    "Result<bool, std::cmp::Ordering>",
    "Result<u8, i8>",
    "Result<u32, u32>",
    "Result<std::num::NonZeroU64, std::convert::Infallible>",
    "Result<std::convert::Infallible, std::num::NonZeroI64>",
    "Result<std::num::NonZeroI64, std::convert::Infallible>",
    "Result<std::num::NonZeroU32, ()>",
    "Result<(), std::convert::Infallible>",
    "Result<std::convert::Infallible, std::convert::Infallible>",
    "Result<Result<bool, u8>, Result<std::cmp::Ordering, char>>",
    "either::Either<bool, u8>",
    "either::Either<std::num::NonZeroU8, std::cmp::Ordering>",
    "either::Either<std::convert::Infallible, bool>",
    "either::Either<std::cmp::Ordering, std::convert::Infallible>",
    "either::Either<either::Either<u8, bool>, either::Either<(), i16>>",
    "either::Either<char, Result<std::num::NonZeroI16, std::convert::Infallible>>",
    "Box<bool>",
    "Box<u8>",
    "Box<std::num::NonZeroU64>",
    "Box<Option<Box<std::cmp::Ordering>>>",
    "Box<std::convert::Infallible>",
    "[bool; 0]",
    "[bool; 1]",
    "[bool; 2]",
    "[bool; 3]",
    "[bool; 8]",
    "[bool; 33]",
    "[bool; 63]",
    "[std::cmp::Ordering; 5]",
    "[std::cmp::Ordering; 39]",
    "[std::cmp::Ordering; 40]",
    "[u8; 1]",
    "[u8; 2]",
    "[u8; 7]",
    "[u16; 3]",
    "[u32; 1]",
    "[std::num::NonZeroU8; 2]",
    "[std::num::NonZeroU64; 1]",
    "[std::num::NonZeroI64; 1]",
    "[std::num::NonZeroI64; 0]",
    "[(); 100]",
    "[std::convert::Infallible; 0]",
    "[std::convert::Infallible; 1]",
    "[std::convert::Infallible; 3]",
    "[[bool; 3]; 4]",
    "[Option<bool>; 4]",
    "[(bool, std::cmp::Ordering); 3]",
    "[Box<i8>; 3]",
    "[Result<bool, std::cmp::Ordering>; 6]",
    "[[std::convert::Infallible; 0]; 5]",
    "[Option<std::convert::Infallible>; 9]",
    "[char; 3]",
    "[std::num::NonZeroI16; 3]",
    "(std::num::NonZeroU32, Result<u32, ()>)",
    "(Result<u32, ()>, std::num::NonZeroI32)",
    "(std::num::NonZeroU64, ())",
    "((), std::num::NonZeroI64)",
    "(std::num::NonZeroUsize, Option<std::convert::Infallible>, [bool; 0])",
    "(u32, std::num::NonZeroU32)",
    "(std::num::NonZeroI32, i32)",
    "(u16, u16)",
    "(u8, std::num::NonZeroI8, bool)",
    "(Option<u8>, Result<bool, ()>, [std::cmp::Ordering; 2], Box<i8>)",
    "(bool, std::convert::Infallible)",
    "(std::convert::Infallible, u8)",
    "(std::convert::Infallible, std::convert::Infallible)",
    "(bool, (u8, (std::cmp::Ordering, (i8, ()))))",
    "((((bool,), u8), std::cmp::Ordering), char)",
    "Option<(bool, Option<(u8, Option<std::cmp::Ordering>)>)>",
    "(char, char)",
    "(char, char, char)",
    "Option<[either::Either<bool, std::cmp::Ordering>; 4]>",
    "either::Either<(u8, bool), [std::cmp::Ordering; 3]>",
    "Result<(), (std::num::NonZeroU32, std::num::NonZeroU32)>",
    "(i8,)",
    "(std::num::NonZeroI8, ())",
    "(Option<bool>, bool, u8)",
    "(Box<bool>, [bool; 2], std::cmp::Ordering, i8)",
    "(std::num::NonZeroI8, u8, Box<bool>, u8)",
    "(std::cmp::Ordering, u8, i8, i8, Result<bool, ()>)",
    "(u8, u8, bool, bool, Option<bool>)",
    "(Option<bool>, u8, u8, std::num::NonZeroI8, (), Option<bool>)",
    "([bool; 2], Option<bool>, u8, Option<bool>, Box<bool>, std::num::NonZeroI8)",
    "(bool, (), Box<bool>, u8, u8, std::num::NonZeroI8, std::cmp::Ordering)",
    "((), std::num::NonZeroI8, i8, i8, bool, i8, ())",
    "(bool, Option<bool>, Option<bool>, Box<std::cmp::Ordering>, Option<bool>, (), either::Either<(), bool>, Option<bool>)",
    "(std::cmp::Ordering, (), (), either::Either<(), bool>, std::cmp::Ordering, bool, Option<bool>, bool)",
    "(either::Either<(), bool>, Option<bool>, Box<std::cmp::Ordering>, (), bool, Result<bool, ()>, Box<std::cmp::Ordering>, (), Option<bool>)",
    "((), Result<bool, ()>, Box<std::cmp::Ordering>, bool, (), bool, either::Either<(), bool>, std::cmp::Ordering, Result<bool, ()>)",
    "(std::cmp::Ordering, bool, Box<std::cmp::Ordering>, std::cmp::Ordering, Box<std::cmp::Ordering>, (), Option<bool>, Result<bool, ()>, Option<bool>, Result<bool, ()>)",
    "(Option<bool>, Box<std::cmp::Ordering>, (), bool, Result<bool, ()>, either::Either<(), bool>, Box<std::cmp::Ordering>, Box<std::cmp::Ordering>, Option<bool>, Box<std::cmp::Ordering>)",
    "(Option<bool>, bool, (), bool, std::cmp::Ordering, Option<bool>, Result<bool, ()>, Result<bool, ()>, Option<bool>, std::cmp::Ordering, Option<bool>)",
    "(Option<bool>, either::Either<(), bool>, Result<bool, ()>, bool, Option<bool>, either::Either<(), bool>, Option<bool>, Option<bool>, std::cmp::Ordering, Box<std::cmp::Ordering>, bool)",
    "(either::Either<(), bool>, std::cmp::Ordering, either::Either<(), bool>, either::Either<(), bool>, Option<bool>, (), std::cmp::Ordering, either::Either<(), bool>, bool, bool, Result<bool, ()>, Result<bool, ()>)",
    "((), bool, std::cmp::Ordering, either::Either<(), bool>, Result<bool, ()>, Option<bool>, Box<std::cmp::Ordering>, Option<bool>, (), either::Either<(), bool>, (), std::cmp::Ordering)",
    "(bool, either::Either<(), bool>, bool, Box<std::cmp::Ordering>, (), Option<bool>, Box<std::cmp::Ordering>, std::cmp::Ordering, std::cmp::Ordering, either::Either<(), bool>, Result<bool, ()>, std::cmp::Ordering, either::Either<(), bool>)",
    "(Box<std::cmp::Ordering>, (), bool, std::cmp::Ordering, (), Option<bool>, std::cmp::Ordering, bool, Box<std::cmp::Ordering>, (), Option<bool>, std::cmp::Ordering, ())",
    "(Result<bool, ()>, Box<std::cmp::Ordering>, std::cmp::Ordering, Result<bool, ()>, (), (), either::Either<(), bool>, either::Either<(), bool>, Option<bool>, (), Option<bool>, Option<bool>, (), ())",
    "(std::cmp::Ordering, bool, (), Box<std::cmp::Ordering>, Result<bool, ()>, std::cmp::Ordering, either::Either<(), bool>, (), Box<std::cmp::Ordering>, Option<bool>, std::cmp::Ordering, bool, (), Option<bool>)",
    "(Result<bool, ()>, Box<std::cmp::Ordering>, Result<bool, ()>, Box<std::cmp::Ordering>, Result<bool, ()>, Option<bool>, bool, Box<std::cmp::Ordering>, Box<std::cmp::Ordering>, Box<std::cmp::Ordering>, Option<bool>, either::Either<(), bool>, Result<bool, ()>, either::Either<(), bool>, bool)",
    "(Box<std::cmp::Ordering>, Option<bool>, Option<bool>, Result<bool, ()>, either::Either<(), bool>, either::Either<(), bool>, Option<bool>, Box<std::cmp::Ordering>, (), Option<bool>, Box<std::cmp::Ordering>, either::Either<(), bool>, either::Either<(), bool>, Option<bool>, Option<bool>)",
    "(either::Either<(), bool>, std::cmp::Ordering, Result<bool, ()>, Box<std::cmp::Ordering>, bool, (), Result<bool, ()>, Box<std::cmp::Ordering>, Option<bool>, Option<bool>, either::Either<(), bool>, Option<bool>, (), Option<bool>, Box<std::cmp::Ordering>, Result<bool, ()>)",
    "(either::Either<(), bool>, either::Either<(), bool>, Box<std::cmp::Ordering>, Option<bool>, Option<bool>, Option<bool>, either::Either<(), bool>, Option<bool>, either::Either<(), bool>, Box<std::cmp::Ordering>, (), Option<bool>, Box<std::cmp::Ordering>, std::cmp::Ordering, Box<std::cmp::Ordering>, Box<std::cmp::Ordering>)",
    "(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)",
    "(bool, bool, bool, bool, bool, bool, bool, std::convert::Infallible, bool, bool, bool, bool, bool, bool, bool, bool)",
    "(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, std::convert::Infallible)",
    "((), (), (), (), (), (), (), (), (), (), (), (), (), (), (), std::num::NonZeroU64)",
    "(std::num::NonZeroU64, (), (), (), (), (), (), (), (), (), (), (), (), (), (), ())",
    "(Result<u8, ()>, Result<u8, ()>, Result<u8, ()>, Result<u8, ()>, Result<u8, ()>, Result<u8, ()>, Result<u8, ()>)",
]
