//! Specification of generated `FromRequest` types.

use crate::pat::Pat;

pub const METHODS: &[&str] = &[
    "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH",
];

/// Context type of a derived type, or context requested by a guard or body decoder.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ctx {
    No,
    A,
    B,
    /// `CtxA`'s marked field
    S,
    /// `CtxB`'s second marked field
    T,
}

impl Ctx {
    pub fn path(self) -> &'static str {
        match self {
            Ctx::No => "::hyperdrive::NoContext",
            Ctx::A => "::vcore::CtxA",
            Ctx::B => "::vcore::CtxB",
            Ctx::S => "::vcore::SubS",
            Ctx::T => "::vcore::SubT",
        }
    }

    /// Context types a guard may request when the type's context is `self`.
    pub fn projections(self) -> &'static [Ctx] {
        match self {
            Ctx::No => &[Ctx::No],
            Ctx::A => &[Ctx::No, Ctx::A, Ctx::S],
            Ctx::B => &[Ctx::No, Ctx::B, Ctx::A, Ctx::T],
            Ctx::S => &[Ctx::No, Ctx::S],
            Ctx::T => &[Ctx::No, Ctx::T],
        }
    }
}

/// Type of a placeholder field.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SegTy {
    Str,
    U8,
    U32,
    I64,
    U128,
    Bool,
    Char,
    Ip,
    PathBuf,
    Even,
    NoDigit,
    Upper,
    Never,
}

pub const SEG_TYS: &[SegTy] = &[
    SegTy::Str,
    SegTy::U8,
    SegTy::U32,
    SegTy::I64,
    SegTy::U128,
    SegTy::Bool,
    SegTy::Char,
    SegTy::Ip,
    SegTy::PathBuf,
    SegTy::Even,
    SegTy::NoDigit,
    SegTy::Upper,
    SegTy::Never,
];

impl SegTy {
    pub fn path(self) -> &'static str {
        match self {
            SegTy::Str => "::std::string::String",
            SegTy::U8 => "u8",
            SegTy::U32 => "u32",
            SegTy::I64 => "i64",
            SegTy::U128 => "u128",
            SegTy::Bool => "bool",
            SegTy::Char => "char",
            SegTy::Ip => "::std::net::IpAddr",
            SegTy::PathBuf => "::std::path::PathBuf",
            SegTy::Even => "::vcore::Even",
            SegTy::NoDigit => "::vcore::NoDigit",
            SegTy::Upper => "::vcore::Upper",
            SegTy::Never => "::vcore::Never",
        }
    }
}

/// Type of a `#[query_params]` field.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum QBase {
    Pairs,
    Map,
    S1,
    S2,
    S3,
    New,
    PairsU,
    Unit,
    /// `serde(flatten)`
    Flat,
    /// `serde(transparent)`
    Trans,
    /// enums as keys
    Enums,
    Nums,
    /// records how it was deserialized
    Spy0,
    Spy1,
    Spy2,
    Spy3,
    Arr,
}

pub const QBASES: &[QBase] = &[
    QBase::Pairs,
    QBase::Map,
    QBase::S1,
    QBase::S2,
    QBase::S3,
    QBase::New,
    QBase::PairsU,
    QBase::Unit,
    QBase::Flat,
    QBase::Trans,
    QBase::Enums,
    QBase::Nums,
    QBase::Spy0,
    QBase::Spy1,
    QBase::Spy2,
    QBase::Spy3,
    QBase::Arr,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct QTy {
    pub base: QBase,
    pub opt: bool,
}

impl QTy {
    pub fn path(self) -> String {
        let b = match self.base {
            QBase::Pairs => "::std::vec::Vec<(::std::string::String, ::std::string::String)>",
            QBase::Map => {
                "::std::collections::BTreeMap<::std::string::String, ::std::string::String>"
            }
            QBase::S1 => "::vcore::QS1",
            QBase::S2 => "::vcore::QS2",
            QBase::S3 => "::vcore::QS3",
            QBase::New => "::vcore::QNew",
            QBase::PairsU => "::std::vec::Vec<(::std::string::String, u16)>",
            QBase::Unit => "()",
            QBase::Flat => "::vcore::QFlat",
            QBase::Trans => "::vcore::QTrans",
            QBase::Enums => "::std::vec::Vec<(::vcore::QE, ::std::string::String)>",
            QBase::Nums => "::std::collections::BTreeMap<u8, f64>",
            QBase::Spy0 => "::vcore::Spy0",
            QBase::Spy1 => "::vcore::Spy1",
            QBase::Spy2 => "::vcore::Spy2",
            QBase::Spy3 => "::vcore::Spy3",
            QBase::Arr => "[(::std::string::String, ::std::string::String); 2]",
        };
        if self.opt {
            format!("::std::option::Option<{}>", b)
        } else {
            b.to_string()
        }
    }
}

/// Type of a `#[body]` field.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BTy {
    /// Collects all chunks (custom `FromBody`).
    Raw(Ctx),
    /// Custom `FromBody` that drops the body unread.
    Early(Ctx),
    JsonVal,
    JsonS,
    JsonVec,
    FormPairs,
    FormS,
    JsonOpt,
    JsonStr,
    JsonEnum,
    JsonIgn,
    FormMap,
    FormUnit,
    FormNum,
}

impl BTy {
    pub fn path(self) -> String {
        match self {
            BTy::Raw(c) => format!("::vcore::RawBody<{}>", c.path()),
            BTy::Early(c) => format!("::vcore::EarlyBody<{}>", c.path()),
            BTy::JsonVal => "::hyperdrive::body::Json<::vcore::JsonValue>".into(),
            BTy::JsonS => "::hyperdrive::body::Json<::vcore::JS>".into(),
            BTy::JsonVec => "::hyperdrive::body::Json<::std::vec::Vec<u32>>".into(),
            BTy::FormPairs => {
                "::hyperdrive::body::HtmlForm<::std::vec::Vec<(::std::string::String, ::std::string::String)>>".into()
            }
            BTy::FormS => "::hyperdrive::body::HtmlForm<::vcore::QS1>".into(),
            BTy::JsonOpt => "::hyperdrive::body::Json<::std::option::Option<u8>>".into(),
            BTy::JsonStr => "::hyperdrive::body::Json<::std::string::String>".into(),
            BTy::JsonEnum => "::hyperdrive::body::Json<::vcore::JE>".into(),
            BTy::JsonIgn => "::hyperdrive::body::Json<::vcore::JIgn>".into(),
            BTy::FormMap => {
                "::hyperdrive::body::HtmlForm<::std::collections::BTreeMap<::std::string::String, ::std::string::String>>".into()
            }
            BTy::FormUnit => "::hyperdrive::body::HtmlForm<()>".into(),
            BTy::FormNum => "::hyperdrive::body::HtmlForm<::vcore::FNum>".into(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum GKind {
    /// `Guard::Result = Result<Self, BoxedError>`
    Res,
    /// `Guard::Result = DefaultFuture<Self, BoxedError>`
    Fut,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct GTy {
    pub kind: GKind,
    pub id: u32,
    pub ctx: Ctx,
}

impl GTy {
    pub fn path(self) -> String {
        let k = match self.kind {
            GKind::Res => "GRes",
            GKind::Fut => "GFut",
        };
        format!("::vcore::{}<::vcore::K{}, {}>", k, self.id, self.ctx.path())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FwTy {
    /// Another derived type of the case.
    Type(usize),
    /// Hand-written implementation that records what it is given.
    Probe,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    Seg(SegTy),
    Query(QTy),
    Body(BTy),
    Guard(GTy),
    Forward(FwTy),
    /// Field of a variant that is never created.
    Inert,
}

#[derive(Clone, Debug)]
pub struct FieldSpec {
    pub name: String,
    pub role: Role,
    /// Index of the type parameter used as this field's type.
    pub param: Option<usize>,
    pub noise: u8,
}

#[derive(Clone, Debug)]
pub struct Route {
    pub method: &'static str,
    pub pat: Pat,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Unit,
    Named,
    /// Only for variants that are never created.
    Tuple,
}

#[derive(Clone, Debug)]
pub struct VarSpec {
    pub name: String,
    pub routes: Vec<Route>,
    pub fields: Vec<FieldSpec>,
    pub style: Style,
    pub noise: u8,
}

impl VarSpec {
    pub fn forward(&self) -> Option<&FieldSpec> {
        self.fields.iter().find(|f| if let Role::Forward(_) = f.role { true } else { false })
    }
    pub fn body(&self) -> Option<&FieldSpec> {
        self.fields.iter().find(|f| if let Role::Body(_) = f.role { true } else { false })
    }
    pub fn query(&self) -> Option<&FieldSpec> {
        self.fields.iter().find(|f| if let Role::Query(_) = f.role { true } else { false })
    }
    pub fn guards(&self) -> impl Iterator<Item = (&FieldSpec, GTy)> {
        self.fields.iter().filter_map(|f| match f.role {
            Role::Guard(g) => Some((f, g)),
            _ => None,
        })
    }
    pub fn is_fallback(&self) -> bool {
        self.routes.is_empty() && self.forward().is_some()
    }
    pub fn constructible(&self) -> bool {
        !self.routes.is_empty() || self.forward().is_some()
    }
    pub fn field(&self, name: &str) -> Option<&FieldSpec> {
        self.fields.iter().find(|f| f.name == name)
    }
}

#[derive(Clone, Debug)]
pub struct TypeSpec {
    pub name: String,
    pub is_struct: bool,
    pub ctx: Ctx,
    /// Number of type parameters.
    pub params: usize,
    pub vars: Vec<VarSpec>,
    pub noise: u8,
}

impl TypeSpec {
    pub fn fallback(&self) -> Option<&VarSpec> {
        self.vars.iter().find(|v| v.is_fallback())
    }
}

#[derive(Clone, Debug)]
pub struct CaseSpec {
    pub id: u64,
    /// `types[0]` is the outermost; nested types have larger indices.
    pub types: Vec<TypeSpec>,
}

impl CaseSpec {
    pub fn field_type(&self, role: Role) -> String {
        match role {
            Role::Seg(s) => s.path().to_string(),
            Role::Query(q) => q.path(),
            Role::Body(b) => b.path(),
            Role::Guard(g) => g.path(),
            Role::Forward(FwTy::Type(i)) => self.type_path(i),
            Role::Forward(FwTy::Probe) => unreachable!("needs the context"),
            Role::Inert => "::vcore::Inert".into(),
        }
    }

    pub fn field_type_in(&self, ty: usize, role: Role) -> String {
        match role {
            Role::Forward(FwTy::Probe) => {
                format!("::vcore::Probe<{}>", self.types[ty].ctx.path())
            }
            r => self.field_type(r),
        }
    }

    /// Path of type `i`, with its type parameters instantiated.
    pub fn type_path(&self, i: usize) -> String {
        let t = &self.types[i];
        if t.params == 0 {
            return t.name.clone();
        }
        let mut args = vec![];
        for p in 0..t.params {
            let f = t
                .vars
                .iter()
                .flat_map(|v| &v.fields)
                .find(|f| f.param == Some(p))
                .expect("unused type parameter");
            args.push(self.field_type_in(i, f.role));
        }
        format!("{}<{}>", t.name, args.join(", "))
    }
}
