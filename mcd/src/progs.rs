//! Generated by tools/gen_programs.py fixed. Derived programs of C16-C19.
#![allow(warnings)]
use crate::rt::Prog;
pub mod c16_plain {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct An {
    pub timestamp: u64,
    pub v: Option<u8>,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for An {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(An);
#[derive(ULogData)]
pub struct A {
    pub timestamp: u64,
    pub v: Option<u8>,
}
impl ::mcd::rt::Rec for A {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A);
#[derive(ULogData)]
pub struct B {
    pub timestamp: u64,
    pub x: An,
}
impl ::mcd::rt::Rec for B {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<An>("x")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.x)] }
}
::mcd::rec_field!(B);
#[derive(ULogMessages)]
pub enum Msgs {
    A(A),
    B(B),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::A(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::B(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "plain", f: open, decoys: vec!["A", "B"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "a".into(), multi: 0, s: ::std::sync::Arc::new(<A as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "b".into(), multi: 0, s: ::std::sync::Arc::new(<B as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c16_multi {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 1)]
pub struct A1 {
    pub timestamp: u64,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for A1 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(A1);
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 0)]
pub struct A0 {
    pub timestamp: u64,
    pub v: u8,
}
impl ::mcd::rt::Rec for A0 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<u8>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A0);
#[derive(ULogMessages)]
pub enum Msgs {
    A1(A1),
    A0(A0),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::A1(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::A0(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "multi", f: open, decoys: vec!["A1", "a1", "A0", "a0"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "a".into(), multi: 1, s: ::std::sync::Arc::new(<A1 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "a".into(), multi: 0, s: ::std::sync::Arc::new(<A0 as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c16_front {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct An {
    pub timestamp: u64,
    pub v: Option<u8>,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for An {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(An);
#[derive(ULogData)]
#[yule_log(subscription_name = "b", multi_id = 1)]
pub struct B1 {
    pub x: An,
    pub timestamp: u64,
}
impl ::mcd::rt::Rec for B1 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<An>("x"), ::mcd::rt::fspec::<u64>("timestamp")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.x), ::mcd::rt::fval(self.timestamp)] }
}
::mcd::rec_field!(B1);
#[derive(ULogData)]
pub struct Ab {
    pub y: Vec<An>,
}
impl ::mcd::rt::Rec for Ab {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Vec<An>>("y")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.y)] }
}
::mcd::rec_field!(Ab);
#[derive(ULogMessages)]
pub enum Msgs {
    #[yule_log(forward_other)]
    Raw(yule_log::model::msg::UlogMessage),
    B1(B1),
    Ab(Ab),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::Raw(m) => ::mcd::rt::other(&m), Msgs::B1(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Ab(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "front", f: open, decoys: vec!["B1", "b1", "Ab"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "b".into(), multi: 1, s: ::std::sync::Arc::new(<B1 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "ab".into(), multi: 0, s: ::std::sync::Arc::new(<Ab as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c16_misfit {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct An {
    pub timestamp: u64,
    pub v: Option<u8>,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for An {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(An);
#[derive(ULogData)]
pub struct A {
    pub timestamp: u64,
    pub v: Option<u16>,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for A {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u16>>("v"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(A);
#[derive(ULogData)]
pub struct Ab {
    pub y: An,
}
impl ::mcd::rt::Rec for Ab {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<An>("y")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.y)] }
}
::mcd::rec_field!(Ab);
#[derive(ULogMessages)]
pub enum Msgs {
    A(A),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
    Ab(Ab),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::A(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m), Msgs::Ab(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "misfit", f: open, decoys: vec!["A", "Ab"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "a".into(), multi: 0, s: ::std::sync::Arc::new(<A as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "ab".into(), multi: 0, s: ::std::sync::Arc::new(<Ab as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c16_all {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct An {
    pub timestamp: u64,
    pub v: Option<u8>,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for An {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(An);
#[derive(ULogData)]
pub struct A {
    pub timestamp: u64,
    pub v: Option<u8>,
}
impl ::mcd::rt::Rec for A {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A);
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 1)]
pub struct A1 {
    pub timestamp: u64,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for A1 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(A1);
#[derive(ULogData)]
pub struct B {
    pub timestamp: u64,
    pub x: An,
}
impl ::mcd::rt::Rec for B {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<An>("x")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.x)] }
}
::mcd::rec_field!(B);
#[derive(ULogData)]
#[yule_log(subscription_name = "b", multi_id = 1)]
pub struct B1 {
    pub x: An,
    pub timestamp: u64,
}
impl ::mcd::rt::Rec for B1 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<An>("x"), ::mcd::rt::fspec::<u64>("timestamp")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.x), ::mcd::rt::fval(self.timestamp)] }
}
::mcd::rec_field!(B1);
#[derive(ULogData)]
pub struct Ab {
    pub y: Vec<An>,
}
impl ::mcd::rt::Rec for Ab {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Vec<An>>("y")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.y)] }
}
::mcd::rec_field!(Ab);
#[derive(ULogMessages)]
pub enum Msgs {
    A(A),
    A1(A1),
    B(B),
    B1(B1),
    Ab(Ab),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::A(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::A1(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)), Msgs::B(x) => ::mcd::rt::DObs::Mapped(2, ::mcd::rt::Rec::vals(x)), Msgs::B1(x) => ::mcd::rt::DObs::Mapped(3, ::mcd::rt::Rec::vals(x)), Msgs::Ab(x) => ::mcd::rt::DObs::Mapped(4, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "all", f: open, decoys: vec!["A", "A1", "a1", "B", "B1", "b1", "Ab"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "a".into(), multi: 0, s: ::std::sync::Arc::new(<A as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "a".into(), multi: 1, s: ::std::sync::Arc::new(<A1 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "b".into(), multi: 0, s: ::std::sync::Arc::new(<B as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "b".into(), multi: 1, s: ::std::sync::Arc::new(<B1 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "ab".into(), multi: 0, s: ::std::sync::Arc::new(<Ab as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c16_high {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 127)]
pub struct A127 {
    pub timestamp: u64,
    pub v: Option<u8>,
}
impl ::mcd::rt::Rec for A127 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A127);
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 128)]
pub struct A128 {
    pub timestamp: u64,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for A128 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(A128);
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 255)]
pub struct A255 {
    pub timestamp: u64,
    pub v: Option<u8>,
}
impl ::mcd::rt::Rec for A255 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A255);
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 1)]
pub struct A1 {
    pub timestamp: u64,
    pub v: Option<u8>,
}
impl ::mcd::rt::Rec for A1 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A1);
#[derive(ULogData)]
#[yule_log(subscription_name = "a", multi_id = 64)]
pub struct A64 {
    pub timestamp: u64,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for A64 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(A64);
#[derive(ULogData)]
#[yule_log(subscription_name = "b", multi_id = 255)]
pub struct B255 {
    pub timestamp: u64,
}
impl ::mcd::rt::Rec for B255 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp)] }
}
::mcd::rec_field!(B255);
#[derive(ULogMessages)]
pub enum Msgs {
    A127(A127),
    A128(A128),
    A255(A255),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
    A1(A1),
    A64(A64),
    B255(B255),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::A127(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::A128(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)), Msgs::A255(x) => ::mcd::rt::DObs::Mapped(2, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m), Msgs::A1(x) => ::mcd::rt::DObs::Mapped(3, ::mcd::rt::Rec::vals(x)), Msgs::A64(x) => ::mcd::rt::DObs::Mapped(4, ::mcd::rt::Rec::vals(x)), Msgs::B255(x) => ::mcd::rt::DObs::Mapped(5, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "high", f: open, decoys: vec!["A127", "a127", "A128", "a128", "A255", "a255", "A1", "a1", "A64", "a64", "B255", "b255"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "a".into(), multi: 127, s: ::std::sync::Arc::new(<A127 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "a".into(), multi: 128, s: ::std::sync::Arc::new(<A128 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "a".into(), multi: 255, s: ::std::sync::Arc::new(<A255 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "a".into(), multi: 1, s: ::std::sync::Arc::new(<A1 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "a".into(), multi: 64, s: ::std::sync::Arc::new(<A64 as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "b".into(), multi: 255, s: ::std::sync::Arc::new(<B255 as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub fn c16() -> Vec<Prog> {
    vec![c16_plain::prog(), c16_multi::prog(), c16_front::prog(), c16_misfit::prog(), c16_all::prog(), c16_high::prog()]
}
pub mod c17_t0 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: u8,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<u8>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t0", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o0 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<u8>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o0", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t1 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: u16,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<u16>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t1", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o1 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<u16>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u16>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o1", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t2 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: u32,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<u32>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t2", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o2 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<u32>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u32>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o2", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t3 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: u64,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<u64>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t3", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o3 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<u64>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u64>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o3", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t4 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: i8,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<i8>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t4", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o4 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<i8>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i8>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o4", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t5 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: i16,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<i16>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t5", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o5 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<i16>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i16>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o5", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t6 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: i32,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<i32>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t6", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o6 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<i32>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i32>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o6", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t7 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: i64,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<i64>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t7", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o7 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<i64>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i64>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o7", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t8 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: f32,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<f32>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t8", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o8 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<f32>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<f32>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o8", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t9 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: f64,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<f64>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t9", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o9 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<f64>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<f64>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o9", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t10 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: bool,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<bool>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t10", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o10 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<bool>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<bool>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o10", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t11 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: ::yule_log::model::CChar,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<::yule_log::model::CChar>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t11", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o11 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<::yule_log::model::CChar>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<::yule_log::model::CChar>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o11", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t12 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<u8>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<u8>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t12", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o12 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<u8>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<u8>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o12", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t13 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<u16>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<u16>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t13", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o13 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<u16>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<u16>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o13", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t14 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<u32>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<u32>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t14", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o14 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<u32>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<u32>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o14", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t15 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<u64>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<u64>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t15", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o15 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<u64>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<u64>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o15", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t16 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<i8>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<i8>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t16", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o16 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<i8>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<i8>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o16", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t17 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<i16>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<i16>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t17", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o17 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<i16>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<i16>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o17", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t18 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<i32>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<i32>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t18", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o18 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<i32>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<i32>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o18", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t19 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<i64>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<i64>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t19", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o19 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<i64>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<i64>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o19", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t20 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<f32>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<f32>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t20", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o20 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<f32>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<f32>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o20", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t21 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<f64>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<f64>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t21", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o21 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<f64>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<f64>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o21", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t22 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<bool>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<bool>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t22", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o22 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<bool>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<bool>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o22", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t23 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<::yule_log::model::CChar>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<::yule_log::model::CChar>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t23", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o23 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<::yule_log::model::CChar>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<::yule_log::model::CChar>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o23", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t24 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: N,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<N>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t24", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o24 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<N>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<N>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o24", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t25 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<N>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<N>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t25", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o25 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<N>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<N>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o25", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t26 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct Outer {
    pub n: N,
}
impl ::mcd::rt::Rec for Outer {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<N>("n")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.n)] }
}
::mcd::rec_field!(Outer);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Outer,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Outer>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t26", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o26 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct Outer {
    pub n: N,
}
impl ::mcd::rt::Rec for Outer {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<N>("n")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.n)] }
}
::mcd::rec_field!(Outer);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Outer>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Outer>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o26", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_t27 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct Outer {
    pub n: N,
}
impl ::mcd::rt::Rec for Outer {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<N>("n")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.n)] }
}
::mcd::rec_field!(Outer);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Vec<Outer>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Vec<Outer>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "t27", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17_o27 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct Outer {
    pub n: N,
}
impl ::mcd::rt::Rec for Outer {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<N>("n")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.n)] }
}
::mcd::rec_field!(Outer);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub f: Option<Vec<Outer>>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<Outer>>>("f")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.f)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "o27", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub fn c17() -> Vec<Prog> {
    vec![c17_t0::prog(), c17_o0::prog(), c17_t1::prog(), c17_o1::prog(), c17_t2::prog(), c17_o2::prog(), c17_t3::prog(), c17_o3::prog(), c17_t4::prog(), c17_o4::prog(), c17_t5::prog(), c17_o5::prog(), c17_t6::prog(), c17_o6::prog(), c17_t7::prog(), c17_o7::prog(), c17_t8::prog(), c17_o8::prog(), c17_t9::prog(), c17_o9::prog(), c17_t10::prog(), c17_o10::prog(), c17_t11::prog(), c17_o11::prog(), c17_t12::prog(), c17_o12::prog(), c17_t13::prog(), c17_o13::prog(), c17_t14::prog(), c17_o14::prog(), c17_t15::prog(), c17_o15::prog(), c17_t16::prog(), c17_o16::prog(), c17_t17::prog(), c17_o17::prog(), c17_t18::prog(), c17_o18::prog(), c17_t19::prog(), c17_o19::prog(), c17_t20::prog(), c17_o20::prog(), c17_t21::prog(), c17_o21::prog(), c17_t22::prog(), c17_o22::prog(), c17_t23::prog(), c17_o23::prog(), c17_t24::prog(), c17_o24::prog(), c17_t25::prog(), c17_o25::prog(), c17_t26::prog(), c17_o26::prog(), c17_t27::prog(), c17_o27::prog()]
}
pub mod c17n_req {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub is_armed: bool,
    pub has_fix: bool,
    pub valid: bool,
    pub flag: u8,
    pub enabled: u8,
    pub count: u32,
    pub num: u16,
    pub len: i32,
    pub name: Vec<::yule_log::model::CChar>,
    pub text: Vec<u8>,
    pub id: i16,
    pub seq: u64,
    pub timestamp_sample: u64,
    pub x: f32,
    pub lat: f64,
    pub value: i8,
    pub offset: i64,
    pub ratios: Vec<f32>,
    pub samples: Vec<i16>,
    pub unit: ::yule_log::model::CChar,
    pub inner: N,
    pub list: Vec<N>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<bool>("is_armed"), ::mcd::rt::fspec::<bool>("has_fix"), ::mcd::rt::fspec::<bool>("valid"), ::mcd::rt::fspec::<u8>("flag"), ::mcd::rt::fspec::<u8>("enabled"), ::mcd::rt::fspec::<u32>("count"), ::mcd::rt::fspec::<u16>("num"), ::mcd::rt::fspec::<i32>("len"), ::mcd::rt::fspec::<Vec<::yule_log::model::CChar>>("name"), ::mcd::rt::fspec::<Vec<u8>>("text"), ::mcd::rt::fspec::<i16>("id"), ::mcd::rt::fspec::<u64>("seq"), ::mcd::rt::fspec::<u64>("timestamp_sample"), ::mcd::rt::fspec::<f32>("x"), ::mcd::rt::fspec::<f64>("lat"), ::mcd::rt::fspec::<i8>("value"), ::mcd::rt::fspec::<i64>("offset"), ::mcd::rt::fspec::<Vec<f32>>("ratios"), ::mcd::rt::fspec::<Vec<i16>>("samples"), ::mcd::rt::fspec::<::yule_log::model::CChar>("unit"), ::mcd::rt::fspec::<N>("inner"), ::mcd::rt::fspec::<Vec<N>>("list")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.is_armed), ::mcd::rt::fval(self.has_fix), ::mcd::rt::fval(self.valid), ::mcd::rt::fval(self.flag), ::mcd::rt::fval(self.enabled), ::mcd::rt::fval(self.count), ::mcd::rt::fval(self.num), ::mcd::rt::fval(self.len), ::mcd::rt::fval(self.name), ::mcd::rt::fval(self.text), ::mcd::rt::fval(self.id), ::mcd::rt::fval(self.seq), ::mcd::rt::fval(self.timestamp_sample), ::mcd::rt::fval(self.x), ::mcd::rt::fval(self.lat), ::mcd::rt::fval(self.value), ::mcd::rt::fval(self.offset), ::mcd::rt::fval(self.ratios), ::mcd::rt::fval(self.samples), ::mcd::rt::fval(self.unit), ::mcd::rt::fval(self.inner), ::mcd::rt::fval(self.list)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "req", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c17n_opt {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct M {
    pub timestamp: u64,
    pub list: Option<Vec<N>>,
    pub inner: Option<N>,
    pub unit: Option<::yule_log::model::CChar>,
    pub samples: Option<Vec<i16>>,
    pub ratios: Option<Vec<f32>>,
    pub offset: Option<i64>,
    pub value: Option<i8>,
    pub lat: Option<f64>,
    pub x: Option<f32>,
    pub timestamp_sample: Option<u64>,
    pub seq: Option<u64>,
    pub id: Option<i16>,
    pub text: Option<Vec<u8>>,
    pub name: Option<Vec<::yule_log::model::CChar>>,
    pub len: Option<i32>,
    pub num: Option<u16>,
    pub count: Option<u32>,
    pub enabled: Option<u8>,
    pub flag: Option<u8>,
    pub valid: Option<bool>,
    pub has_fix: Option<bool>,
    pub is_armed: Option<bool>,
}
impl ::mcd::rt::Rec for M {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<N>>>("list"), ::mcd::rt::fspec::<Option<N>>("inner"), ::mcd::rt::fspec::<Option<::yule_log::model::CChar>>("unit"), ::mcd::rt::fspec::<Option<Vec<i16>>>("samples"), ::mcd::rt::fspec::<Option<Vec<f32>>>("ratios"), ::mcd::rt::fspec::<Option<i64>>("offset"), ::mcd::rt::fspec::<Option<i8>>("value"), ::mcd::rt::fspec::<Option<f64>>("lat"), ::mcd::rt::fspec::<Option<f32>>("x"), ::mcd::rt::fspec::<Option<u64>>("timestamp_sample"), ::mcd::rt::fspec::<Option<u64>>("seq"), ::mcd::rt::fspec::<Option<i16>>("id"), ::mcd::rt::fspec::<Option<Vec<u8>>>("text"), ::mcd::rt::fspec::<Option<Vec<::yule_log::model::CChar>>>("name"), ::mcd::rt::fspec::<Option<i32>>("len"), ::mcd::rt::fspec::<Option<u16>>("num"), ::mcd::rt::fspec::<Option<u32>>("count"), ::mcd::rt::fspec::<Option<u8>>("enabled"), ::mcd::rt::fspec::<Option<u8>>("flag"), ::mcd::rt::fspec::<Option<bool>>("valid"), ::mcd::rt::fspec::<Option<bool>>("has_fix"), ::mcd::rt::fspec::<Option<bool>>("is_armed")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.list), ::mcd::rt::fval(self.inner), ::mcd::rt::fval(self.unit), ::mcd::rt::fval(self.samples), ::mcd::rt::fval(self.ratios), ::mcd::rt::fval(self.offset), ::mcd::rt::fval(self.value), ::mcd::rt::fval(self.lat), ::mcd::rt::fval(self.x), ::mcd::rt::fval(self.timestamp_sample), ::mcd::rt::fval(self.seq), ::mcd::rt::fval(self.id), ::mcd::rt::fval(self.text), ::mcd::rt::fval(self.name), ::mcd::rt::fval(self.len), ::mcd::rt::fval(self.num), ::mcd::rt::fval(self.count), ::mcd::rt::fval(self.enabled), ::mcd::rt::fval(self.flag), ::mcd::rt::fval(self.valid), ::mcd::rt::fval(self.has_fix), ::mcd::rt::fval(self.is_armed)] }
}
::mcd::rec_field!(M);
#[derive(ULogMessages)]
pub enum Msgs {
    M(M),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::M(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "opt", f: open, decoys: vec!["M"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "m".into(), multi: 0, s: ::std::sync::Arc::new(<M as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub fn c17n() -> Vec<Prog> {
    vec![c17n_req::prog(), c17n_opt::prog()]
}
pub mod c18_flat {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub timestamp: u64,
    pub fa: u16,
    pub fb: Option<u32>,
    #[yule_log(field_name = "renamed_c")]
    pub fc: u8,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<u16>("fa"), ::mcd::rt::fspec::<Option<u32>>("fb"), ::mcd::rt::fspec::<u8>("renamed_c")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.fb), ::mcd::rt::fval(self.fc)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "flat", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_flat_noother {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub fa: u16,
    pub fb: Option<u32>,
    #[yule_log(field_name = "renamed_c")]
    pub fc: u8,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("fa"), ::mcd::rt::fspec::<Option<u32>>("fb"), ::mcd::rt::fspec::<u8>("renamed_c")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.fb), ::mcd::rt::fval(self.fc)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "flat_noother", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_nest0 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
    pub nb: Option<u8>,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na"), ::mcd::rt::fspec::<Option<u8>>("nb")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na), ::mcd::rt::fval(self.nb)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct T {
    pub fa: Option<u16>,
    pub nf: N,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u16>>("fa"), ::mcd::rt::fspec::<N>("nf")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.nf)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "nest0", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_nest1 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
    pub nb: Option<u8>,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na"), ::mcd::rt::fspec::<Option<u8>>("nb")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na), ::mcd::rt::fval(self.nb)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct T {
    pub fa: Option<u16>,
    pub nf: Vec<N>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u16>>("fa"), ::mcd::rt::fspec::<Vec<N>>("nf")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.nf)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "nest1", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_nest2 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
    pub nb: Option<u8>,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na"), ::mcd::rt::fspec::<Option<u8>>("nb")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na), ::mcd::rt::fval(self.nb)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct T {
    pub fa: Option<u16>,
    pub nf: Option<N>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u16>>("fa"), ::mcd::rt::fspec::<Option<N>>("nf")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.nf)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "nest2", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_nest3 {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
    pub nb: Option<u8>,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na"), ::mcd::rt::fspec::<Option<u8>>("nb")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na), ::mcd::rt::fval(self.nb)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct T {
    pub fa: Option<u16>,
    pub nf: Option<Vec<N>>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u16>>("fa"), ::mcd::rt::fspec::<Option<Vec<N>>>("nf")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.nf)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "nest3", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_pads {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub timestamp: u64,
    pub _padding0: Option<Vec<u8>>,
    pub fa: Option<u16>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<Vec<u8>>>("_padding0"), ::mcd::rt::fspec::<Option<u16>>("fa")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self._padding0), ::mcd::rt::fval(self.fa)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "pads", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_padr {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub fa: Option<u16>,
    pub _padding0: Vec<u8>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u16>>("fa"), ::mcd::rt::fspec::<Vec<u8>>("_padding0")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self._padding0)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "padr", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_opts {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub fa: Option<u16>,
    pub fb: Option<u32>,
    #[yule_log(field_name = "renamed_c")]
    pub fc: Option<u8>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u16>>("fa"), ::mcd::rt::fspec::<Option<u32>>("fb"), ::mcd::rt::fspec::<Option<u8>>("renamed_c")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.fb), ::mcd::rt::fval(self.fc)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "opts", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_many {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub fa: u16,
    pub fb: u32,
    #[yule_log(field_name = "renamed_c")]
    pub fc: u8,
    pub fd: u64,
    pub fe: i8,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("fa"), ::mcd::rt::fspec::<u32>("fb"), ::mcd::rt::fspec::<u8>("renamed_c"), ::mcd::rt::fspec::<u64>("fd"), ::mcd::rt::fspec::<i8>("fe")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.fa), ::mcd::rt::fval(self.fb), ::mcd::rt::fval(self.fc), ::mcd::rt::fval(self.fd), ::mcd::rt::fval(self.fe)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "many", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_lots {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub timestamp: u64,
    pub k0: u8,
    pub k1: u16,
    pub k2: i8,
    pub k3: u8,
    pub k4: u16,
    pub k5: i8,
    pub k6: u8,
    pub k7: u16,
    pub k8: i8,
    pub k9: u8,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<u8>("k0"), ::mcd::rt::fspec::<u16>("k1"), ::mcd::rt::fspec::<i8>("k2"), ::mcd::rt::fspec::<u8>("k3"), ::mcd::rt::fspec::<u16>("k4"), ::mcd::rt::fspec::<i8>("k5"), ::mcd::rt::fspec::<u8>("k6"), ::mcd::rt::fspec::<u16>("k7"), ::mcd::rt::fspec::<i8>("k8"), ::mcd::rt::fspec::<u8>("k9")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.k0), ::mcd::rt::fval(self.k1), ::mcd::rt::fval(self.k2), ::mcd::rt::fval(self.k3), ::mcd::rt::fval(self.k4), ::mcd::rt::fval(self.k5), ::mcd::rt::fval(self.k6), ::mcd::rt::fval(self.k7), ::mcd::rt::fval(self.k8), ::mcd::rt::fval(self.k9)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "lots", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_deep {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct N {
    pub na: u16,
    pub nb: Option<u8>,
}
impl ::mcd::rt::Rec for N {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("na"), ::mcd::rt::fspec::<Option<u8>>("nb")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.na), ::mcd::rt::fval(self.nb)] }
}
::mcd::rec_field!(N);
#[derive(ULogData)]
pub struct Mid {
    pub d: Option<u8>,
    pub n: N,
    pub ns: Option<Vec<N>>,
}
impl ::mcd::rt::Rec for Mid {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u8>>("d"), ::mcd::rt::fspec::<N>("n"), ::mcd::rt::fspec::<Option<Vec<N>>>("ns")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.d), ::mcd::rt::fval(self.n), ::mcd::rt::fval(self.ns)] }
}
::mcd::rec_field!(Mid);
#[derive(ULogData)]
pub struct T {
    pub mids: Vec<Mid>,
    pub mid: Option<Mid>,
    pub fa: Option<u16>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Vec<Mid>>("mids"), ::mcd::rt::fspec::<Option<Mid>>("mid"), ::mcd::rt::fspec::<Option<u16>>("fa")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.mids), ::mcd::rt::fval(self.mid), ::mcd::rt::fval(self.fa)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "deep", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_near {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub volt: u16,
    pub volt_raw: Option<u8>,
    pub raw_volt: u8,
    pub vol: Option<u32>,
    pub voltage: i8,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("volt"), ::mcd::rt::fspec::<Option<u8>>("volt_raw"), ::mcd::rt::fspec::<u8>("raw_volt"), ::mcd::rt::fspec::<Option<u32>>("vol"), ::mcd::rt::fspec::<i8>("voltage")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.volt), ::mcd::rt::fval(self.volt_raw), ::mcd::rt::fval(self.raw_volt), ::mcd::rt::fval(self.vol), ::mcd::rt::fval(self.voltage)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "near", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_near_rev {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub timestamp: u64,
    pub voltage: Option<i8>,
    pub vol: u32,
    pub raw_volt: Option<u8>,
    pub volt_raw: u8,
    pub volt: Option<u16>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<i8>>("voltage"), ::mcd::rt::fspec::<u32>("vol"), ::mcd::rt::fspec::<Option<u8>>("raw_volt"), ::mcd::rt::fspec::<u8>("volt_raw"), ::mcd::rt::fspec::<Option<u16>>("volt")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.voltage), ::mcd::rt::fval(self.vol), ::mcd::rt::fval(self.raw_volt), ::mcd::rt::fval(self.volt_raw), ::mcd::rt::fval(self.volt)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "near_rev", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_near_all {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub volt: u16,
    pub volt_raw: u8,
    pub raw_volt: u8,
    pub vol: u32,
    pub voltage: i8,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("volt"), ::mcd::rt::fspec::<u8>("volt_raw"), ::mcd::rt::fspec::<u8>("raw_volt"), ::mcd::rt::fspec::<u32>("vol"), ::mcd::rt::fspec::<i8>("voltage")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.volt), ::mcd::rt::fval(self.volt_raw), ::mcd::rt::fval(self.raw_volt), ::mcd::rt::fval(self.vol), ::mcd::rt::fval(self.voltage)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "near_all", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_solo {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub timestamp: u64,
    pub volt: Option<u16>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u16>>("volt")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.volt)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "solo", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_solo_req {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    pub volt: u16,
    pub timestamp: Option<u64>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u16>("volt"), ::mcd::rt::fspec::<Option<u64>>("timestamp")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.volt), ::mcd::rt::fval(self.timestamp)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "solo_req", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_solo_vec {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct T {
    #[yule_log(field_name = "volt_raw1")]
    pub volt: Vec<u16>,
    #[yule_log(field_name = "_timestamp")]
    pub at: Option<u64>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Vec<u16>>("volt_raw1"), ::mcd::rt::fspec::<Option<u64>>("_timestamp")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.volt), ::mcd::rt::fval(self.at)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "solo_vec", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_empties {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct Em {
}
impl ::mcd::rt::Rec for Em {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![] }
}
::mcd::rec_field!(Em);
#[derive(ULogData)]
pub struct EmO {
    pub a: Option<u8>,
}
impl ::mcd::rt::Rec for EmO {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<u8>>("a")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.a)] }
}
::mcd::rec_field!(EmO);
#[derive(ULogData)]
pub struct T {
    pub one: Option<Em>,
    pub many: Vec<Em>,
    pub os: Vec<EmO>,
    pub oo: Option<EmO>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Option<Em>>("one"), ::mcd::rt::fspec::<Vec<Em>>("many"), ::mcd::rt::fspec::<Vec<EmO>>("os"), ::mcd::rt::fspec::<Option<EmO>>("oo")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.one), ::mcd::rt::fval(self.many), ::mcd::rt::fval(self.os), ::mcd::rt::fval(self.oo)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "empties", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c18_empties_req {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct Em {
}
impl ::mcd::rt::Rec for Em {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![] }
}
::mcd::rec_field!(Em);
#[derive(ULogData)]
pub struct EmR {
    pub r: u8,
}
impl ::mcd::rt::Rec for EmR {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u8>("r")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.r)] }
}
::mcd::rec_field!(EmR);
#[derive(ULogData)]
pub struct T {
    pub one: Em,
    pub many: Option<Vec<Em>>,
    pub os: Option<Vec<EmR>>,
    pub oo: Option<EmR>,
}
impl ::mcd::rt::Rec for T {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<Em>("one"), ::mcd::rt::fspec::<Option<Vec<Em>>>("many"), ::mcd::rt::fspec::<Option<Vec<EmR>>>("os"), ::mcd::rt::fspec::<Option<EmR>>("oo")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.one), ::mcd::rt::fval(self.many), ::mcd::rt::fval(self.os), ::mcd::rt::fval(self.oo)] }
}
::mcd::rec_field!(T);
#[derive(ULogMessages)]
pub enum Msgs {
    T(T),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::T(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "empties_req", f: open, decoys: vec!["T"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "t".into(), multi: 0, s: ::std::sync::Arc::new(<T as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub fn c18() -> Vec<Prog> {
    vec![c18_flat::prog(), c18_flat_noother::prog(), c18_nest0::prog(), c18_nest1::prog(), c18_nest2::prog(), c18_nest3::prog(), c18_pads::prog(), c18_padr::prog(), c18_opts::prog(), c18_many::prog(), c18_lots::prog(), c18_deep::prog(), c18_near::prog(), c18_near_rev::prog(), c18_near_all::prog(), c18_solo::prog(), c18_solo_req::prog(), c18_solo_vec::prog(), c18_empties::prog(), c18_empties_req::prog()]
}
pub mod c19_fwd {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct An {
    pub timestamp: u64,
    pub v: Option<u8>,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for An {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(An);
#[derive(ULogData)]
pub struct A {
    pub timestamp: u64,
    pub v: Option<u8>,
}
impl ::mcd::rt::Rec for A {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A);
#[derive(ULogData)]
#[yule_log(subscription_name = "b", multi_id = 1)]
pub struct B1 {
    pub x: An,
    pub timestamp: u64,
}
impl ::mcd::rt::Rec for B1 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<An>("x"), ::mcd::rt::fspec::<u64>("timestamp")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.x), ::mcd::rt::fval(self.timestamp)] }
}
::mcd::rec_field!(B1);
#[derive(ULogMessages)]
pub enum Msgs {
    A(A),
    B1(B1),
    #[yule_log(forward_other)]
    Other(yule_log::model::msg::UlogMessage),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::A(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::B1(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)), Msgs::Other(m) => ::mcd::rt::other(&m) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "fwd", f: open, decoys: vec!["A", "B1", "b1"], alt: None, spec: ::mcd::rt::ESpec { forward: true, msgs: vec![::mcd::rt::MSpec { sub: "a".into(), multi: 0, s: ::std::sync::Arc::new(<A as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "b".into(), multi: 1, s: ::std::sync::Arc::new(<B1 as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub mod c19_nofwd {
use yule_log::{ULogData, ULogMessages};
#[derive(ULogData)]
pub struct An {
    pub timestamp: u64,
    pub v: Option<u8>,
    pub w: Option<i8>,
}
impl ::mcd::rt::Rec for An {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v"), ::mcd::rt::fspec::<Option<i8>>("w")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v), ::mcd::rt::fval(self.w)] }
}
::mcd::rec_field!(An);
#[derive(ULogData)]
pub struct A {
    pub timestamp: u64,
    pub v: Option<u8>,
}
impl ::mcd::rt::Rec for A {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<u64>("timestamp"), ::mcd::rt::fspec::<Option<u8>>("v")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.timestamp), ::mcd::rt::fval(self.v)] }
}
::mcd::rec_field!(A);
#[derive(ULogData)]
#[yule_log(subscription_name = "b", multi_id = 1)]
pub struct B1 {
    pub x: An,
    pub timestamp: u64,
}
impl ::mcd::rt::Rec for B1 {
    fn sspec() -> ::mcd::rt::SSpec { ::mcd::rt::SSpec { fields: vec![::mcd::rt::fspec::<An>("x"), ::mcd::rt::fspec::<u64>("timestamp")] } }
    fn vals(self) -> Vec<::mcd::rt::DVal> { vec![::mcd::rt::fval(self.x), ::mcd::rt::fval(self.timestamp)] }
}
::mcd::rec_field!(B1);
#[derive(ULogMessages)]
pub enum Msgs {
    A(A),
    B1(B1),
}
::mcd::opener!(Msgs, |m: Msgs| match m { Msgs::A(x) => ::mcd::rt::DObs::Mapped(0, ::mcd::rt::Rec::vals(x)), Msgs::B1(x) => ::mcd::rt::DObs::Mapped(1, ::mcd::rt::Rec::vals(x)) });
pub fn prog() -> ::mcd::rt::Prog {
    ::mcd::rt::Prog { name: "nofwd", f: open, decoys: vec!["A", "B1", "b1"], alt: None, spec: ::mcd::rt::ESpec { forward: false, msgs: vec![::mcd::rt::MSpec { sub: "a".into(), multi: 0, s: ::std::sync::Arc::new(<A as ::mcd::rt::Rec>::sspec()) }, ::mcd::rt::MSpec { sub: "b".into(), multi: 1, s: ::std::sync::Arc::new(<B1 as ::mcd::rt::Rec>::sspec()) }] } }
}
}
pub fn c19() -> Vec<Prog> {
    vec![c19_fwd::prog(), c19_nofwd::prog()]
}
