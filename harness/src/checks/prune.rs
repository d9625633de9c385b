//! Data skipping: every predicate over every layout, against three-valued evaluation.
//! usage: prune <property> (delta|iceberg|files) [--only=layout:type] [--thorough]
use std::collections::BTreeMap;
use std::sync::Arc;

use crate::par::par;
use crate::report::*;
use crate::rows::Row;
use crate::sess::*;
use crate::store::*;
use crate::tables::{Stmt, exec, limited};
use serde_json::json;

/// A literal and its place in the order of the type's values.
#[derive(Clone, Debug)]
struct Lit {
    sql: String,
    rank: Option<i32>,
}

#[derive(Clone)]
struct Type {
    name: &'static str,
    ddl: &'static str,
    /// column expression of the compared value (nested fields)
    field: &'static str,
    /// stored values, with ranks
    values: Vec<Lit>,
    /// further literals
    extra: Vec<Lit>,
    /// predicates judged by evaluating them outside the table
    raw: Vec<String>,
}

fn l(sql: &str, rank: i32) -> Lit {
    Lit { sql: sql.to_string(), rank: Some(rank) }
}

fn ty(name: &'static str, ddl: &'static str, values: &[(&str, i32)], extra: &[(&str, i32)], raw: &[&str]) -> Type {
    Type {
        name,
        ddl,
        field: "",
        values: values.iter().map(|(s, r)| l(s, *r)).collect(),
        extra: extra.iter().map(|(s, r)| l(s, *r)).collect(),
        raw: raw.iter().map(|s| s.to_string()).collect(),
    }
}

const LONG: &str = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";

fn types() -> Vec<Type> {
    let l1 = format!("'{LONG}a'");
    let l2 = format!("'{LONG}b'");
    let num = ["x + 1 > y", "-x > 0", "abs(x) > 1", "x % 2 = 0", "x * 0 = 0", "x + 0 = x", "x - x = 0", "cast(x as string) > '0'", "cast(x as string) like '-%'", "cast(x as double) < 1.0D", "sign(x) = -1"];
    let mut out = vec![
        ty("int", "int", &[("-2147483647", 0), ("-1", 2), ("7", 4), ("2147483647", 6)], &[("0", 3), ("9223372036854775807", 7), ("7.5", 5), ("7.0D", 4), ("'7'", 4)], &num),
        ty("bigint", "bigint", &[("-9223372036854775807", 0), ("-1L", 2), ("9007199254740992", 4), ("9007199254740993", 6), ("9223372036854775807", 8)], &[("-2147483649", 1), ("0", 3), ("9007199254740994", 7)], &num),
        ty("smallint", "smallint", &[("-32768", 0), ("0", 2), ("32767", 4)], &[("-1", 1), ("40000", 5)], &num),
        ty("tinyint", "tinyint", &[("-128", 0), ("0", 2), ("127", 4)], &[("-1", 1), ("128", 5)], &num),
        ty("string", "string", &[("''", 0), ("'A'", 2), ("'a b%/='", 4), (&l1, 6), (&l2, 8), ("'\u{10ffff}z'", 12)], &[("'a'", 3), ("'\u{e9}'", 10), ("'\u{10ffff}'", 11)],
           &["x like 'a%'", "x not like 'a%'", "x like '%z'", "x like ''", "x like 'A'", "x like 'a b\\\\%%'", "startswith(x, 'a')", "x || '' = 'A'", "upper(x) = 'A'", "lower(x) = x", "length(x) > 1", "x rlike '^a'", "substring(x, 1, 1) = 'a'", "trim(x) = x", "x ilike 'A%'", "concat(x, y) = 'A'", "x > y || ''"]),
        ty("double", "double", &[("cast('-inf' as double)", 0), ("-1.5D", 2), ("0.0D", 4), ("1e300D", 6)], &[("1.0D", 5), ("cast('inf' as double)", 8), ("cast('nan' as double)", 10), ("0", 4)], &["x + 1 > y", "-x > 0", "x * 2 > 1", "isnan(x)", "not isnan(x)", "x * 0 = 0", "cast(x as string) = 'NaN'", "nanvl(x, 1.0D) = 1.0D", "floor(x) = 0"]),
        ty("double-nan", "double", &[("cast('-inf' as double)", 0), ("1.0D", 2), ("cast('nan' as double)", 10)], &[("0.0D", 1), ("cast('inf' as double)", 8)], &["isnan(x)", "not isnan(x)", "cast(x as string) = 'NaN'", "nanvl(x, 1.0D) = 1.0D"]),
        ty("float-nan", "float", &[("cast('-inf' as float)", 0), ("cast(1 as float)", 2), ("cast('nan' as float)", 10)], &[("cast(0 as float)", 1)], &["isnan(x)", "not isnan(x)"]),
        ty("float", "float", &[("cast('-inf' as float)", 0), ("cast(-1.5 as float)", 2), ("cast(0.1 as float)", 4), ("cast(16777216 as float)", 6)], &[("0.1D", 3), ("cast('nan' as float)", 10)], &["x + 1 > y", "isnan(x)", "x * 2 > 1"]),
        ty("decimal", "decimal(10,2)", &[("-0.01", 0), ("0.00", 2), ("1.10", 4), ("99999999.99", 6)], &[("1.105", 5), ("1", 3), ("1.1D", 4), ("-1000000000000", -1)], &num),
        ty("bigdec", "decimal(38,0)", &[("-99999999999999999999999999999999999999", 0), ("9007199254740993", 2), ("99999999999999999999999999999999999998", 4), ("99999999999999999999999999999999999999", 6)], &[("0", 1), ("9007199254740992", 1), ("12345678901234567890", 3)], &["x % 2 = 0", "-x > 0", "cast(x as string) like '-%'"]),
        ty("date", "date", &[("date '0001-01-01'", 0), ("date '1969-12-31'", 2), ("date '2024-02-29'", 4), ("date '9999-12-31'", 6)], &[("date '1970-01-01'", 3), ("'2024-02-29'", 4), ("timestamp '2024-02-29 00:00:01'", 5)],
           &["year(x) = 2024", "month(x) > 6", "date_add(x, 1) > date '2024-02-29'", "x - interval 1 day < date '1970-01-01'", "cast(x as string) = '2024-02-29'", "cast(x as timestamp) > timestamp '1970-01-01 00:00:00'", "datediff(x, y) > 0", "date_trunc('year', x) = timestamp '2024-01-01 00:00:00'", "last_day(x) = x"]),
        ty("timestamp", "timestamp", &[("timestamp '1900-01-01 00:00:00'", 0), ("timestamp '1969-12-31 23:59:59.999999'", 2), ("timestamp '2024-01-01 00:00:00.123456'", 4), ("timestamp '2024-01-01 00:00:00.123999'", 6), ("timestamp '2200-06-01 12:00:00'", 8)], &[("timestamp '2024-01-01 00:00:00.123'", 3), ("timestamp '2024-01-01 00:00:00.123457'", 5), ("date '2024-01-01'", 3), ("'2024-01-01 00:00:00.123456'", 4)],
           &["year(x) = 2024", "cast(x as date) = date '2024-01-01'", "date_trunc('hour', x) = timestamp '2024-01-01 00:00:00'", "x + interval 1 second > timestamp '2024-01-01 00:00:01.123456'", "cast(x as string) > '2'", "to_date(x) < date '1970-01-01'", "hour(x) = 0", "unix_micros(x) < 0"]),
        ty("ntz", "timestamp_ntz", &[("timestamp_ntz '1900-01-01 00:00:00'", 0), ("timestamp_ntz '1969-12-31 23:59:59.999999'", 2), ("timestamp_ntz '2024-01-01 00:00:00.123456'", 4), ("timestamp_ntz '2024-01-01 00:00:00.123999'", 6)], &[("timestamp_ntz '2024-01-01 00:00:00.123'", 3), ("date '2024-01-01'", 3)],
           &["year(x) = 2024", "cast(x as date) = date '2024-01-01'", "hour(x) = 0"]),
        ty("boolean", "boolean", &[("false", 0), ("true", 2)], &[], &["x", "not x", "x and y", "x or y", "not (x and y)", "x is true", "x is not true", "x is false", "x is not false", "x is unknown", "not x or y", "if(x, y, not y)", "cast(x as int) = 1"]),
        ty("binary", "binary", &[("x''", 0), ("x'00'", 2), ("x'7f'", 4), ("x'ff00'", 6)], &[("x'80'", 5)], &["hex(x) = '00'", "length(x) = 1"]),
    ];
    let mut nested = ty("struct", "struct<a:int,b:string>", &[("named_struct('a', -5, 'b', 'q')", 0), ("named_struct('a', 0, 'b', 'q')", 2), ("named_struct('a', 9, 'b', 'q')", 4)], &[], &["x.a + 1 > y.a", "x.b = 'q'", "x.b <> 'q'", "x is null", "x is not null", "x.b is null"]);
    nested.field = ".a";
    out.push(nested);
    out
}

#[derive(Clone, Debug)]
enum A {
    X,
    Y,
    L(Lit),
}

#[derive(Clone, Debug)]
enum P {
    Cmp(&'static str, A, A),
    In(A, Vec<Lit>, bool),
    Between(A, Lit, Lit, bool),
    IsNull(A, bool),
    F(&'static str, i32),
    Const(Option<bool>),
    Not(Box<P>),
    And(Box<P>, Box<P>),
    Or(Box<P>, Box<P>),
    /// judged by evaluating the expression in a projection over the same rows
    Raw(String),
}

#[derive(Clone, Debug)]
struct Rec {
    r: i32,
    f: i32,
    x: Option<usize>,
    y: Option<usize>,
}

fn holds(op: &str, a: i32, b: i32) -> bool {
    match op {
        "=" | "<=>" => a == b,
        "<>" => a != b,
        "<" => a < b,
        "<=" => a <= b,
        ">" => a > b,
        _ => a >= b,
    }
}

impl A {
    fn sql(&self, t: &Type) -> String {
        match self {
            A::X => format!("x{}", t.field),
            A::Y => format!("y{}", t.field),
            // a literal of a nested type is the literal of its field
            A::L(l) => t.lit(l),
        }
    }
    fn rank(&self, t: &Type, r: &Rec) -> Option<i32> {
        match self {
            A::X => r.x.and_then(|i| t.values[i].rank),
            A::Y => r.y.and_then(|i| t.values[i].rank),
            A::L(l) => l.rank,
        }
    }
}

impl Type {
    fn lit(&self, l: &Lit) -> String {
        if self.field.is_empty() || l.rank.is_none() {
            l.sql.clone()
        } else {
            format!("({}){}", l.sql, self.field)
        }
    }
}

impl P {
    fn sql(&self, t: &Type) -> String {
        match self {
            P::Cmp(op, a, b) => format!("{} {op} {}", a.sql(t), b.sql(t)),
            P::In(a, ls, neg) => format!(
                "{} {}in ({})",
                a.sql(t),
                if *neg { "not " } else { "" },
                ls.iter().map(|x| t.lit(x)).collect::<Vec<_>>().join(", ")
            ),
            P::Between(a, lo, hi, neg) => {
                format!("{} {}between {} and {}", a.sql(t), if *neg { "not " } else { "" }, t.lit(lo), t.lit(hi))
            }
            P::IsNull(a, neg) => format!("{} is {}null", a.sql(t), if *neg { "not " } else { "" }),
            P::F(op, n) => format!("f {op} {n}"),
            P::Const(None) => "cast(null as boolean)".into(),
            P::Const(Some(b)) => b.to_string(),
            P::Not(p) => format!("not ({})", p.sql(t)),
            P::And(a, b) => format!("({}) and ({})", a.sql(t), b.sql(t)),
            P::Or(a, b) => format!("({}) or ({})", a.sql(t), b.sql(t)),
            P::Raw(s) => s.clone(),
        }
    }
    fn eval(&self, t: &Type, r: &Rec) -> Option<bool> {
        match self {
            P::Cmp("<=>", a, b) => Some(a.rank(t, r) == b.rank(t, r)),
            P::Cmp(op, a, b) => Some(holds(op, a.rank(t, r)?, b.rank(t, r)?)),
            P::In(a, ls, neg) => {
                let a = a.rank(t, r)?;
                let hit = if ls.iter().any(|l| l.rank == Some(a)) {
                    true
                } else if ls.iter().any(|l| l.rank.is_none()) {
                    return None;
                } else {
                    false
                };
                Some(hit != *neg)
            }
            P::Between(a, lo, hi, neg) => {
                let p = P::And(
                    Box::new(P::Cmp(">=", a.clone(), A::L(lo.clone()))),
                    Box::new(P::Cmp("<=", a.clone(), A::L(hi.clone()))),
                );
                p.eval(t, r).map(|b| b != *neg)
            }
            P::IsNull(a, neg) => Some(a.rank(t, r).is_none() != *neg),
            P::F(op, n) => Some(holds(op, r.f, *n)),
            P::Const(b) => *b,
            P::Not(p) => p.eval(t, r).map(|b| !b),
            P::And(a, b) => match (a.eval(t, r), b.eval(t, r)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            P::Or(a, b) => match (a.eval(t, r), b.eval(t, r)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            P::Raw(_) => None,
        }
    }
}

fn not(p: P) -> P {
    P::Not(Box::new(p))
}
fn and(a: P, b: P) -> P {
    P::And(Box::new(a), Box::new(b))
}
fn or(a: P, b: P) -> P {
    P::Or(Box::new(a), Box::new(b))
}

fn predicates(t: &Type, th: bool) -> Vec<P> {
    let ops = ["=", "<>", "<", "<=", ">", ">=", "<=>"];
    let null = Lit { sql: "null".into(), rank: None };
    let all: Vec<Lit> = t.values.iter().chain(t.extra.iter()).cloned().collect();
    let mut v = vec![P::Const(None), P::Const(Some(true)), P::Const(Some(false))];
    for a in [A::X, A::Y] {
        v.push(P::IsNull(a.clone(), false));
        v.push(P::IsNull(a.clone(), true));
        v.push(not(P::IsNull(a, false)));
    }
    let mut basic = vec![];
    for lit in &all {
        for op in ops {
            v.push(P::Cmp(op, A::X, A::L(lit.clone())));
            basic.push(P::Cmp(op, A::X, A::L(lit.clone())));
            if th || matches!(op, "<" | ">=" | "=") {
                v.push(P::Cmp(op, A::L(lit.clone()), A::X));
            }
            v.push(not(P::Cmp(op, A::X, A::L(lit.clone()))));
        }
    }
    for op in ops {
        v.push(P::Cmp(op, A::X, A::Y));
        v.push(not(P::Cmp(op, A::X, A::Y)));
        v.push(P::Cmp(op, A::X, A::X));
        v.push(P::Cmp(op, A::X, A::L(null.clone())));
        v.push(not(P::Cmp(op, A::X, A::L(null.clone()))));
    }
    for (i, a) in all.iter().enumerate() {
        v.push(P::In(A::X, vec![a.clone()], false));
        v.push(P::In(A::X, vec![a.clone()], true));
        v.push(P::In(A::X, vec![a.clone(), null.clone()], false));
        v.push(P::In(A::X, vec![a.clone(), null.clone()], true));
        v.push(not(P::In(A::X, vec![a.clone(), null.clone()], false)));
        for (j, b) in all.iter().enumerate() {
            if !th && (i + j) % 2 == 1 && i != j {
                continue;
            }
            for neg in [false, true] {
                if i < j {
                    v.push(P::In(A::X, vec![a.clone(), b.clone()], neg));
                }
                v.push(P::Between(A::X, a.clone(), b.clone(), neg));
            }
            if i < j {
                let (ea, eb) = (P::Cmp("=", A::X, A::L(a.clone())), P::Cmp("=", A::X, A::L(b.clone())));
                v.push(or(ea.clone(), eb.clone()));
                v.push(and(not(ea.clone()), not(eb.clone())));
                v.push(or(ea.clone(), P::Cmp("=", A::Y, A::L(b.clone()))));
                v.push(not(and(ea, P::Cmp("<", A::Y, A::L(b.clone())))));
            }
        }
        let e = P::Cmp("=", A::X, A::L(a.clone()));
        let g = P::Cmp(">", A::X, A::L(a.clone()));
        v.push(and(P::F("<", 4), e.clone()));
        v.push(or(P::F("=", 1), e.clone()));
        v.push(or(P::F("=", 1), g.clone()));
        v.push(not(and(P::F(">=", 2), g.clone())));
        v.push(not(or(P::F("=", 2), g.clone())));
        v.push(and(P::IsNull(A::X, true), not(e.clone())));
        v.push(or(P::IsNull(A::X, false), g.clone()));
        v.push(and(P::IsNull(A::Y, false), e.clone()));
        v.push(or(e.clone(), P::Const(None)));
        v.push(not(and(g.clone(), P::Const(None))));
    }
    if th {
        for p in &basic {
            for q in basic.iter().step_by(3) {
                v.push(or(p.clone(), q.clone()));
                v.push(not(and(not(p.clone()), q.clone())));
            }
        }
    }
    for s in &t.raw {
        v.push(P::Raw(s.clone()));
        v.push(P::Raw(format!("not ({s})")));
        v.push(P::Raw(format!("f = 1 or {s}")));
    }
    for a in &t.values {
        let (x, s) = (format!("x{}", t.field), t.lit(a));
        for q in [
            format!("({x} = {s}) is null"),
            format!("({x} = {s}) = true"),
            format!("({x} > {s}) is not true"),
            format!("coalesce({x}, {s}) = {s}"),
            format!("nullif({x}, {s}) is null"),
            format!("case when {x} = {s} then true end"),
            format!("case when {x} is null then true else {x} > {s} end"),
            format!("if({x} < {s}, false, null)"),
            format!("greatest({x}, {s}) = {s}"),
            format!("{x} is distinct from {s}"),
            format!("array_contains(array({x}), {s})"),
        ] {
            v.push(P::Raw(q));
        }
    }
    v
}

#[derive(Clone, Debug)]
struct Layout {
    name: &'static str,
    format: &'static str,
    /// {} is replaced by nothing; partition clause
    part: &'static str,
    props: &'static str,
    /// types that cannot be stored this way
    without: &'static [&'static str],
    only: &'static [&'static str],
    /// rows-changing statements that the layout supports
    dml: &'static [&'static str],
    engine: Engine,
    /// quick runs take every n-th predicate
    stride: usize,
}

fn layout(name: &'static str, format: &'static str, part: &'static str, props: &'static str) -> Layout {
    Layout { name, format, part, props, without: &[], only: &[], dml: &[], engine: Engine::default(), stride: 1 }
}

const ONE: Engine = Engine { batch: 2, partitions: 1 };

const BIN: &[&str] = &["struct", "binary"];

fn delta_layouts() -> Vec<Layout> {
    let dml: &[&str] = &["delete", "replace", "merge"];
    vec![
        Layout { dml, ..layout("files", "delta", "partitioned by (f)", "") },
        Layout { dml, without: BIN, ..layout("part", "delta", "partitioned by (x)", "") },
        Layout { dml, stride: 2, engine: ONE, ..layout("plain", "delta", "", "") },
        Layout { stride: 3, ..layout("mapped", "delta", "partitioned by (f)", "'delta.columnMapping.mode'='name','delta.checkpointInterval'='1'") },
        Layout { stride: 3, without: BIN, dml: &["delete"], ..layout("part-dv", "delta", "partitioned by (x)", "'delta.enableDeletionVectors'='true','delta.columnMapping.mode'='name'") },
        Layout { stride: 2, ..layout("mad", "delta", "partitioned by (f)", "'option.metadataAsDataRead'='true','delta.checkpointInterval'='1'") },
        Layout { stride: 3, without: BIN, ..layout("part-mad", "delta", "partitioned by (x)", "'option.metadataAsDataRead'='true'") },
        Layout { stride: 5, without: BIN, ..layout("part-v2", "delta", "partitioned by (x)", "'delta.checkpointPolicy'='v2','delta.checkpointInterval'='1'") },
    ]
}

fn iceberg_layouts() -> Vec<Layout> {
    let ints: &[&str] = &["int", "bigint", "decimal", "string", "binary"];
    let b: &[&str] = &["int", "bigint", "decimal", "string", "binary", "date", "timestamp", "ntz"];
    let d: &[&str] = &["date", "timestamp", "ntz"];
    let ts: &[&str] = &["timestamp", "ntz"];
    let without: &[&str] = &["smallint", "tinyint"];
    vec![
        Layout { without, ..layout("files", "iceberg", "partitioned by (f)", "") },
        Layout { without: &["smallint", "tinyint", "struct"], ..layout("part", "iceberg", "partitioned by (x)", "") },
        Layout { without, engine: ONE, ..layout("plain", "iceberg", "", "") },
        Layout { stride: 3, without: &["smallint", "tinyint", "struct"], ..layout("part-mad", "iceberg", "partitioned by (x)", "'option.metadataAsDataRead'='true'") },
        Layout { only: b, ..layout("bucket", "iceberg", "partitioned by (bucket(3, x))", "") },
        Layout { only: b, ..layout("bucket1", "iceberg", "partitioned by (bucket(1, x))", "") },
        Layout { only: ints, ..layout("truncate", "iceberg", "partitioned by (truncate(2, x))", "") },
        Layout { only: d, ..layout("years", "iceberg", "partitioned by (years(x))", "") },
        Layout { only: d, ..layout("months", "iceberg", "partitioned by (months(x))", "") },
        Layout { only: d, ..layout("days", "iceberg", "partitioned by (days(x))", "") },
        Layout { only: ts, ..layout("hours", "iceberg", "partitioned by (hours(x))", "") },
    ]
}

fn file_layouts() -> Vec<Layout> {
    vec![
        layout("files", "parquet", "partitioned by (f)", ""),
        Layout { engine: ONE, ..layout("plain", "parquet", "", "") },
        Layout {
            without: &["struct", "binary", "string", "decimal", "bigdec", "timestamp", "ntz", "boolean", "double-nan", "float-nan"],
            ..layout("part", "parquet", "partitioned by (x)", "")
        },
    ]
}

fn records(t: &Type) -> Vec<Rec> {
    let vals: Vec<Option<usize>> = std::iter::once(None).chain((0..t.values.len()).map(Some)).collect();
    let mut out = vec![];
    let mut f = 0;
    for i in 0..vals.len() {
        for j in i..vals.len() {
            out.push(Rec { r: out.len() as i32, f, x: vals[i], y: vals[j] });
            out.push(Rec { r: out.len() as i32, f, x: vals[j], y: vals[i] });
            f += 1;
        }
    }
    out
}

fn values_sql(t: &Type, recs: &[Rec]) -> String {
    let cell = |c: &Option<usize>| match c {
        None => format!("cast(null as {})", t.ddl),
        Some(i) => format!("cast({} as {})", t.values[*i].sql, t.ddl),
    };
    let rows: Vec<String> = recs.iter().map(|r| format!("({}, {}, {}, {})", r.r, r.f, cell(&r.x), cell(&r.y))).collect();
    format!("select * from values {} as v(r, f, x, y)", rows.join(", "))
}

#[derive(Default, Clone)]
struct Out {
    fails: Vec<(String, String, serde_json::Value)>,
    predicates: u64,
    queries: u64,
    changes: u64,
    raw_unusable: u64,
    rejected: BTreeMap<String, u64>,
    matched: BTreeMap<String, u64>,
    files: u64,
    skipped_layouts: Vec<String>,
}

impl Out {
    fn fail(&mut self, key: String, what: String, replay: serde_json::Value) {
        if std::env::var("SAILMC_V").is_ok() {
            eprintln!("{key} {what}");
        }
        self.fails.push((key, what, replay));
    }
}

fn ids(rows: &[Row]) -> Vec<i64> {
    let mut v: Vec<i64> = rows.iter().filter_map(|r| r.first()?.parse().ok()).collect();
    v.sort();
    v
}

async fn q(sess: &Sess, sql: &str) -> Result<Vec<Row>, String> {
    exec(sess, &Stmt::Sql(sql.to_string())).await
}

async fn start(store: &SimStore, engine: Engine) -> (Server, Sess) {
    let server = Server::start(engine.config());
    let sess = server.session("s").await.with_store("memory://sim", Arc::new(store.clone()));
    (server, sess)
}

fn create_sql(l: &Layout, t: &Type) -> String {
    format!(
        "create table t (r int, f int, x {ddl}, y {ddl}) using {} {} location 'memory://sim/t' {}",
        l.format,
        l.part,
        if l.props.is_empty() { String::new() } else { format!("tblproperties({})", l.props) },
        ddl = t.ddl
    )
}

/// Combinations that the system does not support on the unchanged tree; any other that fails is reported.
const NOT_SUPPORTED: &[&str] = &[
    "iceberg/files/binary:insert",
    "iceberg/part/binary:insert",
    "iceberg/plain/binary:insert",
    "iceberg/part-mad/binary:insert",
    "iceberg/bucket/binary:insert",
    "iceberg/bucket1/binary:insert",
    "iceberg/truncate/binary:insert",
];

/// What the predicate must select; None if only an evaluation outside the table can tell and it fails.
async fn expected(sess: &Sess, t: &Type, recs: &[Rec], p: &P) -> Option<Vec<i64>> {
    if let P::Raw(s) = p {
        // every row carries the value of the predicate: nothing can be pushed down or skipped
        let rows = q(sess, &format!("select r, ({s}) from vals")).await.ok()?;
        let mut v: Vec<i64> = rows.iter().filter(|r| r[1] == "true").filter_map(|r| r[0].parse().ok()).collect();
        v.sort();
        return Some(v);
    }
    Some(recs.iter().filter(|r| p.eval(t, r) == Some(true)).map(|r| r.r as i64).collect())
}

async fn run(l: &Layout, t: &Type, turn: usize, th: bool, out: &mut Out) {
    let mut recs = records(t);
    if l.format == "parquet" && l.part.contains("(x)") {
        // null partition values of plain files are another matter (see DESIGN.md)
        recs.retain(|r| r.x.is_some());
    }
    let recs = recs;
    let store = SimStore::new(Image::default());
    let (server, sess) = start(&store, l.engine).await;
    // NaN and statistics: one finding per kind of query
    let coarse = t.name.ends_with("-nan");
    let key = |s: &str| {
        let s = if coarse { "nan" } else { s };
        format!("{}/{}/{}:{s}", l.format, l.name, t.name)
    };
    if let Err(e) = q(&sess, &create_sql(l, t)).await {
        if NOT_SUPPORTED.contains(&key("create").as_str()) {
            out.skipped_layouts.push(format!("{} ({})", key("create"), &e[..e.len().min(160)]));
        } else {
            out.fail(key("create"), e, json!(create_sql(l, t)));
        }
        return;
    }
    let vals = values_sql(t, &recs);
    if let Err(e) = q(&sess, &format!("create temporary view vals as {vals}")).await {
        out.fail(key("vals"), e, json!(vals));
        return;
    }
    let inserts: Vec<String> = if l.part.is_empty() {
        recs.chunks(2).map(|c| format!("insert into t {}", values_sql(t, c))).collect()
    } else {
        vec!["insert into t select * from vals".to_string()]
    };
    for i in &inserts {
        if let Err(e) = q(&sess, i).await {
            if NOT_SUPPORTED.contains(&key("insert").as_str()) {
                out.skipped_layouts.push(format!("{} ({})", key("insert"), &e[..e.len().min(160)]));
            } else {
                out.fail(key("insert"), e, json!([create_sql(l, t), i]));
            }
            return;
        }
    }
    let image = store.image();
    out.files += image.paths().iter().filter(|p| p.ends_with(".parquet") && !p.contains("_delta_log")).count() as u64;
    let text = |c: &str| match t.name {
        "binary" => format!("hex({c})"),
        "struct" => format!("{c}.a, {c}.b"),
        _ => format!("string({c})"),
    };
    let show = format!("r, f, {}, {}, x is null nx, y is null ny", text("x"), text("y"));
    let stored = q(&sess, &format!("select {show} from t order by r")).await;
    let wanted = q(&sess, &format!("select {show} from vals order by r")).await;
    out.queries += 1;
    if stored.is_err() || wanted.is_err() || stored != wanted {
        // an empty string in a Delta partition column is NULL
        let excused = l.format == "delta" && l.part.contains("(x)") && t.name == "string";
        if !excused || stored.is_err() {
            out.fail(key("contents"), {
                let d = match (&stored, &wanted) {
                    (Ok(a), Ok(b)) => format!("{:?}", a.iter().zip(b).find(|(a, b)| a != b)),
                    _ => format!("{:?} / {:?}", stored.as_ref().err(), wanted.as_ref().err()),
                };
                format!("stored rows differ: {d}")
            }, json!([create_sql(l, t), vals]));
            return;
        }
    }
    let mut recs = recs;
    if l.format == "delta" && l.part.contains("(x)") && t.name == "string" {
        for r in &mut recs {
            if r.x == Some(0) {
                r.x = None;
            }
        }
        let _ = q(&sess, &format!("create or replace temporary view vals as {}", values_sql(t, &recs))).await;
    }
    let preds = predicates(t, th);
    let script = |s: &str| json!([create_sql(l, t), inserts.join("; "), s]);
    // a server that did not write the table
    let (fresh_server, fresh) = start(&store, l.engine).await;
    let reader = if l.format == "delta" {
        match q(&fresh, "create table t using delta location 'memory://sim/t'").await {
            Ok(_) => &fresh,
            Err(_) => &sess,
        }
    } else {
        &sess
    };
    // the variants of a layout share the predicates among them in quick runs
    let stride = if th { 1 } else { l.stride };
    for (n, p) in preds.iter().enumerate() {
        if (n + turn) % stride != 0 {
            continue;
        }
        let text = p.sql(t);
        out.predicates += 1;
        let Some(want) = expected(&sess, t, &recs, p).await else {
            out.raw_unusable += 1;
            continue;
        };
        let raw = matches!(p, P::Raw(_));
        let sql = format!("select r from t where {text}");
        out.queries += 1;
        match q(reader, &sql).await {
            Err(e) => {
                // a predicate that cannot be evaluated outside the table either is not about skipping
                if q(&sess, &format!("select r from vals where {text}")).await.is_ok() {
                    out.fail(key(&text), format!("{sql}: {e}"), script(&sql));
                } else {
                    *out.rejected.entry(key("")).or_default() += 1;
                }
                continue;
            }
            Ok(rows) => {
                let got = ids(&rows);
                if got != want {
                    let ctl = q(&sess, &format!("select r from vals where {text}")).await.map(|r| ids(&r));
                    // the same filter over the same rows in memory: is skipping to blame?
                    let kind = if ctl.as_ref() == Ok(&got) { "eval" } else { "skip" };
                    out.fail(key(&format!("{kind}:{text}")), format!("{sql}: {} instead of {}", diff(&got, &want), want.len()), script(&sql));
                }
                *out.matched.entry(if want.is_empty() { "none" } else if want.len() == recs.len() { "all" } else { "some" }.to_string()).or_default() += 1;
            }
        }
        if th || (!raw && n % 3 == 0) {
            let sql = format!("select count(*), min(r), max(r) from t where {text}");
            out.queries += 1;
            let w = vec![vec![
                want.len().to_string(),
                want.first().map(|x| x.to_string()).unwrap_or("NULL".into()),
                want.last().map(|x| x.to_string()).unwrap_or("NULL".into()),
            ]];
            match q(reader, &sql).await {
                Ok(g) if g == w => {}
                Ok(g) => out.fail(key(&format!("agg:{text}")), format!("{sql}: {g:?} instead of {w:?}"), script(&sql)),
                Err(e) => out.fail(key(&format!("agg:{text}")), format!("{sql}: {e}"), script(&sql)),
            }
        }
    }
    // filters that arise during execution
    let order: Vec<(i64, Option<i32>)> = recs.iter().map(|r| (r.r as i64, A::X.rank(t, r))).collect();
    let xs = format!("x{}", t.field);
    let mut dynamic: Vec<(String, Vec<i64>)> = vec![];
    for n in [1usize, 3, 5] {
        for (dir, nulls) in [("asc", "first"), ("asc", "last"), ("desc", "first"), ("desc", "last")] {
            let mut o = order.clone();
            o.sort_by_key(|(r, x)| {
                let nullkey = if nulls == "first" { x.is_some() } else { x.is_none() };
                let v = x.unwrap_or(0);
                (nullkey, if dir == "asc" { v } else { -v }, *r)
            });
            dynamic.push((format!("select r from t order by {xs} {dir} nulls {nulls}, r limit {n}"), {
                let mut w: Vec<i64> = o.iter().take(n).map(|x| x.0).collect();
                w.sort();
                w
            }));
        }
    }
    for a in t.values.iter() {
        let s = t.lit(a);
        let m: Vec<i64> = order.iter().filter(|o| o.1 == a.rank).map(|o| o.0).collect();
        let n: Vec<i64> = order.iter().filter(|o| o.1.is_some() && o.1 != a.rank).map(|o| o.0).collect();
        let nn: Vec<i64> = order.iter().filter(|o| o.1 != a.rank).map(|o| o.0).collect();
        dynamic.push((format!("select t.r from t join (select * from values ({s}) as k(k)) k on t.{xs} = k.k"), m.clone()));
        dynamic.push((format!("select t.r from t where {xs} in (select k from values ({s}) as k(k))"), m.clone()));
        dynamic.push((format!("select t.r from t left anti join (select * from values ({s}) as k(k)) k on t.{xs} = k.k"), nn));
        dynamic.push((format!("select t.r from t where {xs} not in (select k from values ({s}) as k(k))"), n));
        dynamic.push((format!("select t.r from t where {xs} = (select max(k) from values ({s}) as k(k))"), m));
    }
    // NaN and the two zeros are left to the predicates: their join semantics are another property
    if !coarse {
        for (sql, want) in &dynamic {
            out.queries += 1;
            match q(reader, sql).await {
                Ok(rows) if &ids(&rows) == want => {}
                Ok(rows) => out.fail(key(&format!("dyn:{sql}")), format!("{sql}: {} instead of {}", diff(&ids(&rows), want), want.len()), script(sql)),
                Err(e) => out.fail(key(&format!("dyn:{sql}")), format!("{sql}: {e}"), script(sql)),
            }
        }
    }
    drop(fresh_server);
    drop(server);
    // statements that change the rows a predicate selects
    let step = if th { 3 } else { 29 };
    for (n, kind) in l.dml.iter().enumerate() {
        let mut done = 0;
        for p in preds.iter().skip((n * 7 + turn) % step).step_by(step) {
            if matches!(p, P::Raw(_)) {
                continue;
            }
            let text = p.sql(t);
            let hit: Vec<i64> = recs.iter().filter(|r| p.eval(t, r) == Some(true)).map(|r| r.r as i64).collect();
            let keep: Vec<i64> = recs
                .iter()
                .filter(|r| p.eval(t, r) != Some(true))
                .map(|r| r.r as i64)
                .collect();
            let store = SimStore::new(image.clone());
            let (server, sess) = start(&store, l.engine).await;
            if q(&sess, &format!("create table t using {} location 'memory://sim/t'", l.format)).await.is_err() {
                out.fail(key("attach"), "cannot attach".into(), json!(null));
                return;
            }
            let sql = match *kind {
                "delete" => format!("delete from t where {text}"),
                "merge" => format!("merge into t using (select * from values (1) as s(one)) s on {text} when matched then delete"),
                _ => format!("insert into t replace where {text} select * from t where false"),
            };
            out.changes += 1;
            match limited(sess.sql(&sql)).await {
                Err(e) => {
                    if e.starts_with("PANIC") || e.starts_with("HANG") {
                        out.fail(key(&format!("{kind}:{text}")), format!("{sql}: {e}"), script(&sql));
                    }
                    *out.rejected.entry(format!("{}/{}:{kind}: {}", l.format, l.name, &e[..e.len().min(60)])).or_default() += 1;
                }
                Ok(_) => match q(&sess, "select r from t").await {
                    Ok(rows) => {
                        done += 1;
                        let got = ids(&rows);
                        // recorded: REPLACE WHERE on data columns drops rows whose predicate is NULL
                        let nulls: Vec<i64> = recs.iter().filter(|r| p.eval(t, r).is_none()).map(|r| r.r as i64).collect();
                        let known = *kind == "replace" && keep.iter().filter(|k| !got.contains(k)).all(|k| nulls.contains(k)) && got.iter().all(|g| keep.contains(g));
                        if got != keep {
                            if known {
                                *out.rejected.entry("replace drops NULL (D04 finding)".into()).or_default() += 1;
                            } else {
                                out.fail(key(&format!("{kind}:{text}")), format!("{sql}: left {} instead of {} rows ({} selected)", diff(&got, &keep), keep.len(), hit.len()), script(&sql));
                            }
                        }
                    }
                    Err(e) => out.fail(key(&format!("{kind}:{text}")), format!("after {sql}: {e}"), script(&sql)),
                },
            }
            drop(server);
        }
        if done == 0 && !NOT_SUPPORTED.contains(&key(kind).as_str()) {
            out.fail(key(kind), "no statement succeeded".into(), json!(kind));
        }
    }
}

fn diff(got: &[i64], want: &[i64]) -> String {
    let miss: Vec<&i64> = want.iter().filter(|w| !got.contains(w)).collect();
    let extra: Vec<&i64> = got.iter().filter(|g| !want.contains(g)).collect();
    format!("{} rows, missing {miss:?}, extra {extra:?}", got.len())
}

pub fn main(args: &[String]) {
    let property = args.first().cloned().unwrap_or_else(|| broken("usage"));
    let th = thorough();
    let layouts = match args.get(1).map(String::as_str) {
        Some("delta") => delta_layouts(),
        Some("iceberg") => iceberg_layouts(),
        Some("files") => file_layouts(),
        _ => broken("usage"),
    };
    let only = args.iter().find_map(|a| a.strip_prefix("--only=")).map(|s| s.to_string());
    let mut items = vec![];
    for l in &layouts {
        for t in types() {
            if l.without.contains(&t.name) || (!l.only.is_empty() && !l.only.contains(&t.name)) {
                continue;
            }
            if let Some(o) = &only {
                let (a, b) = o.split_once(':').unwrap_or((o, ""));
                if l.name != a || (!b.is_empty() && b != t.name) {
                    continue;
                }
            }
            items.push((l.clone(), t));
        }
    }
    let mut report = Report::new(&property, "exploration");
    let outs = par(items.clone(), |_| (), |_, i, (l, t)| {
        let rt = current_thread();
        let mut out = Out::default();
        rt.block_on(run(l, t, i, th, &mut out));
        std::mem::forget(rt);
        out
    });
    let mut rejected: BTreeMap<String, u64> = BTreeMap::new();
    let mut skipped = vec![];
    for o in &outs {
        for (k, w, r) in &o.fails {
            report.fail(k, w, r.clone());
        }
        report.add("predicates", o.predicates);
        report.add("queries_compared", o.queries);
        report.add("row_changing_statements", o.changes);
        report.add("expressions_the_engine_rejects_everywhere", o.raw_unusable);
        report.add("data_files", o.files);
        for (k, v) in &o.matched {
            report.add(&format!("predicates_selecting_{k}"), *v);
        }
        for (k, v) in &o.rejected {
            *rejected.entry(k.clone()).or_default() += v;
        }
        skipped.extend(o.skipped_layouts.clone());
    }
    let n = report.get("predicates");
    report.set("evaluations", report.get("queries_compared") + report.get("row_changing_statements"));
    report.set("distinct_nontrivial", report.get("predicates_selecting_some"));
    report.set("rule", "every predicate of the grammar over the type's literals, for every layout and type; distinct_nontrivial counts predicates that select some but not all rows");
    report.set("exhaustive", true);
    report.set("layouts_x_types", items.iter().map(|(l, t)| format!("{}:{}", l.name, t.name)).collect::<Vec<_>>());
    report.set("not_supported", json!(skipped));
    report.set("rejected", json!(rejected));
    report.sample(json!({"predicates": n, "example": "not (x between lit and lit)"}));
    report.finish()
}
