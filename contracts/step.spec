## ---------------------------------------------------------------- stepping
@@ fn Step::forward
@owner C10
@ret r
@spec
    requires
        $1.idx() + $2 <= Self::last_(),
    ensures
        r.idx() == $1.idx() + $2, //@C10
@@ fn Step::backward
@owner C10
@ret r
@spec
    requires
        $1.idx() - $2 >= Self::first(),
    ensures
        r.idx() == $1.idx() - $2, //@C10
@@ fn Step for u8::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u8::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u8::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u8::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u8::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i8::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i8::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i8::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i8::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i8::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u16::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u16::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u16::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u16::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u16::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i16::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i16::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i16::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i16::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i16::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u32::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u32::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u32::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u32::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u32::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i32::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i32::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i32::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i32::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i32::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u64::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u64::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u64::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u64::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u64::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i64::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i64::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i64::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i64::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i64::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for usize::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for usize::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for usize::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for usize::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for usize::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for isize::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for isize::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for isize::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for isize::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for isize::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u128::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u128::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u128::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u128::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for u128::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i128::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i128::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i128::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i128::forward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for i128::backward
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for char::steps_between
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for char::forward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ fn Step for char::backward_checked
@owner C10
@entry
    broadcast use crate::specs::group_cast;
@@ impl Step for *
@members
    open spec fn idx(self) -> int { self as int }
    open spec fn first() -> int { Self::MIN as int }
    open spec fn last_() -> int { Self::MAX as int }
    proof fn step_law(a: Self, b: Self) {}
@@ impl Step for char
@members
    // the surrogates are not chars
    open spec fn idx(self) -> int { if (self as u32) < 0xD800 { self as u32 as int } else { self as u32 - 0x800 } }
    open spec fn first() -> int { 0 }
    open spec fn last_() -> int { 0x10FFFF - 0x800 }
    proof fn step_law(a: Self, b: Self) { crate::shim::char_order(a, b); }
