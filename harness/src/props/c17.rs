//! C17: record batches cross the network unchanged, whatever their types.
use crate::cluster::*;
use crate::data::*;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use arrow::array::*;
use arrow::buffer::{Buffer, NullBuffer, OffsetBuffer, ScalarBuffer};
use arrow::datatypes::*;
use arrow::datatypes::i256;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_distributed::{BroadcastExec, NetworkBroadcastExec, NetworkCoalesceExec, display_plan_ascii};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// A deterministic source of cell values.
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn int(&mut self) -> i64 {
        match self.below(6) {
            0 => 0,
            1 => -1,
            2 => self.below(100) as i64,
            3 => i64::MAX,
            4 => i64::MIN,
            _ => self.next() as i64,
        }
    }
    fn text(&mut self) -> String {
        let n = [0, 1, 5, 12, 13, 40, 300][self.below(7)];
        let c = [b'a' as u32, 'é' as u32, '🦀' as u32, 0, 'Z' as u32][self.below(5)];
        (0..n).map(|i| char::from_u32(c + (i % 3)).unwrap_or('x')).collect()
    }
}

fn unit(t: &mut Tape) -> TimeUnit {
    [TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond][t.below(4)]
}

fn metadata(t: &mut Tape) -> HashMap<String, String> {
    if !t.chance(1, 6) {
        return HashMap::new();
    }
    [("k".to_string(), ["v", "", "ü\n"][t.below(3)].to_string())].into()
}

fn gen_field(t: &mut Tape, name: &str, depth: usize) -> Field {
    let ty = gen_type(t, depth);
    let nullable = ty == DataType::Null || !t.chance(1, 4);
    Field::new(name, ty, nullable).with_metadata(metadata(t))
}

fn gen_type(t: &mut Tape, depth: usize) -> DataType {
    use DataType::*;
    let nest = if depth == 0 { 0 } else { 1 };
    match t.weighted(&[3, 3, 4, 4, 2, 2, 2, 2, 4, 3 * nest, 3 * nest, 2 * nest, nest, nest]) {
        0 => [Int64, Int32, Int16, Int8, UInt64, UInt32, UInt16, UInt8][t.below(8)].clone(),
        1 => [Float64, Float32, Float16, Boolean, Null][t.below(5)].clone(),
        2 => [Utf8, LargeUtf8, Utf8View][t.below(3)].clone(),
        3 => [BinaryView, Binary, LargeBinary, FixedSizeBinary(5), FixedSizeBinary(16)][t.below(5)].clone(),
        4 => [Date32, Date64, Time32(TimeUnit::Second), Time32(TimeUnit::Millisecond), Time64(TimeUnit::Microsecond), Time64(TimeUnit::Nanosecond)][t.below(6)].clone(),
        5 => Timestamp(unit(t), [None, Some("UTC".into()), Some("+02:30".into()), Some("Europe/Berlin".into())][t.below(4)].clone()),
        6 => [Duration(unit(t)), Interval(IntervalUnit::YearMonth), Interval(IntervalUnit::DayTime), Interval(IntervalUnit::MonthDayNano)][t.below(4)].clone(),
        7 => [Decimal128(20, 3), Decimal256(50, -2), Decimal32(7, 2), Decimal64(15, 0)][t.below(4)].clone(),
        8 => {
            let k = [Int32, Int8, UInt16, Int64, UInt64, UInt8, Int16, UInt32][t.below(8)].clone();
            let v = [Utf8, Int64, Utf8View, Binary, LargeUtf8, Float64, FixedSizeBinary(5), Decimal128(20, 3), Timestamp(TimeUnit::Second, None), BinaryView, Boolean][t.below(11)].clone();
            Dictionary(Box::new(k), Box::new(v))
        }
        9 => List(Arc::new(gen_field(t, "item", depth - 1))),
        10 => {
            let n = t.range(0, 3);
            Struct((0..n).map(|i| gen_field(t, &format!("f{i}"), depth - 1)).collect::<Vec<_>>().into())
        }
        11 => LargeList(Arc::new(gen_field(t, "element", depth - 1))),
        12 => FixedSizeList(Arc::new(gen_field(t, "item", depth - 1)), t.range(1, 3) as i32),
        13 => {
            let k = Field::new("key", [Utf8, Int32, Utf8View][t.below(3)].clone(), false);
            let v = gen_field(t, "value", depth - 1);
            Map(Arc::new(Field::new("entries", Struct(vec![k, v].into()), false)), false)
        }
        _ => unreachable!(),
    }
}

/// (arrow-ipc cannot read back what it writes of run-end arrays or unions inside of other arrays)
fn gen_column(t: &mut Tape, name: &str, depth: usize) -> Field {
    match t.weighted(&[22, 1, 2]) {
        0 => return gen_field(t, name, depth),
        1 => {}
        _ => {
            let n = t.range(1, 3);
            let fields: Vec<(i8, Arc<Field>)> = (0..n).map(|i| (i as i8 * 3, Arc::new(gen_field(t, &format!("u{i}"), depth)))).collect();
            let mode = if t.bool() { UnionMode::Sparse } else { UnionMode::Dense };
            return Field::new(name, DataType::Union(fields.into_iter().collect(), mode), true).with_metadata(metadata(t));
        }
    }
    let k = [DataType::Int32, DataType::Int16, DataType::Int64][t.below(3)].clone();
    let v = [DataType::Utf8, DataType::Int64, DataType::Utf8View][t.below(3)].clone();
    Field::new(name, DataType::RunEndEncoded(Arc::new(Field::new("run_ends", k, false)), Arc::new(Field::new("values", v, true))), true)
}

fn nulls(r: &mut Rng, nullable: bool, n: usize) -> Option<NullBuffer> {
    if !nullable {
        return None;
    }
    match r.below(4) {
        0 => None,
        1 if n > 0 => Some(NullBuffer::new_null(n)),
        _ => Some((0..n).map(|_| r.below(3) > 0).collect::<Vec<bool>>().into()),
    }
}

fn fixed<T: ArrowPrimitiveType>(r: &mut Rng, nullable: bool, n: usize, ty: &DataType, mut f: impl FnMut(&mut Rng) -> T::Native) -> ArrayRef {
    let v: Vec<T::Native> = (0..n).map(|_| f(r)).collect();
    let a = PrimitiveArray::<T>::new(ScalarBuffer::from(v), nulls(r, nullable, n));
    Arc::new(a.with_data_type(ty.clone()))
}

/// `n` values of a type, sometimes a slice of a longer array.
fn gen_array(r: &mut Rng, ty: &DataType, nullable: bool, n: usize) -> ArrayRef {
    if r.below(3) == 0 && n < 5000 {
        let before = r.below(9);
        let after = r.below(4);
        return gen_whole(r, ty, nullable, before + n + after).slice(before, n);
    }
    gen_whole(r, ty, nullable, n)
}

fn gen_whole(r: &mut Rng, ty: &DataType, nullable: bool, n: usize) -> ArrayRef {
    use DataType::*;
    macro_rules! texts {
        ($a:ty) => {{
            let nb = nulls(r, nullable, n);
            let v: Vec<Option<String>> = (0..n).map(|i| { let s = r.text(); nb.as_ref().is_none_or(|b| b.is_valid(i)).then_some(s) }).collect();
            Arc::new(v.into_iter().collect::<$a>()) as ArrayRef
        }};
    }
    macro_rules! bins {
        ($a:ty) => {{
            let nb = nulls(r, nullable, n);
            let v: Vec<Option<Vec<u8>>> = (0..n).map(|i| { let s = r.text().into_bytes(); nb.as_ref().is_none_or(|b| b.is_valid(i)).then_some(s) }).collect();
            Arc::new(v.iter().map(|x| x.as_deref()).collect::<$a>()) as ArrayRef
        }};
    }
    match ty {
        Null => Arc::new(NullArray::new(n)),
        Boolean => Arc::new(BooleanArray::new((0..n).map(|_| r.below(2) == 0).collect::<Vec<_>>().into(), nulls(r, nullable, n))),
        Int8 => fixed::<Int8Type>(r, nullable, n, ty, |r| r.int() as i8),
        Int16 => fixed::<Int16Type>(r, nullable, n, ty, |r| r.int() as i16),
        Int32 => fixed::<Int32Type>(r, nullable, n, ty, |r| r.int() as i32),
        Int64 => fixed::<Int64Type>(r, nullable, n, ty, |r| r.int()),
        UInt8 => fixed::<UInt8Type>(r, nullable, n, ty, |r| r.int() as u8),
        UInt16 => fixed::<UInt16Type>(r, nullable, n, ty, |r| r.int() as u16),
        UInt32 => fixed::<UInt32Type>(r, nullable, n, ty, |r| r.int() as u32),
        UInt64 => fixed::<UInt64Type>(r, nullable, n, ty, |r| r.int() as u64),
        Float16 => fixed::<Float16Type>(r, nullable, n, ty, |r| <Float16Type as ArrowPrimitiveType>::Native::from_bits(r.next() as u16)),
        Float32 => fixed::<Float32Type>(r, nullable, n, ty, |r| f32::from_bits(r.next() as u32)),
        Float64 => fixed::<Float64Type>(r, nullable, n, ty, |r| [f64::from_bits(r.next()), -0.0, f64::NAN, f64::NEG_INFINITY, 1.5][r.below(5)]),
        Date32 => fixed::<Date32Type>(r, nullable, n, ty, |r| r.int() as i32),
        Date64 => fixed::<Date64Type>(r, nullable, n, ty, |r| r.int()),
        Time32(TimeUnit::Second) => fixed::<Time32SecondType>(r, nullable, n, ty, |r| r.int() as i32),
        Time32(_) => fixed::<Time32MillisecondType>(r, nullable, n, ty, |r| r.int() as i32),
        Time64(TimeUnit::Microsecond) => fixed::<Time64MicrosecondType>(r, nullable, n, ty, |r| r.int()),
        Time64(_) => fixed::<Time64NanosecondType>(r, nullable, n, ty, |r| r.int()),
        Timestamp(TimeUnit::Second, _) => fixed::<TimestampSecondType>(r, nullable, n, ty, |r| r.int()),
        Timestamp(TimeUnit::Millisecond, _) => fixed::<TimestampMillisecondType>(r, nullable, n, ty, |r| r.int()),
        Timestamp(TimeUnit::Microsecond, _) => fixed::<TimestampMicrosecondType>(r, nullable, n, ty, |r| r.int()),
        Timestamp(TimeUnit::Nanosecond, _) => fixed::<TimestampNanosecondType>(r, nullable, n, ty, |r| r.int()),
        Duration(TimeUnit::Second) => fixed::<DurationSecondType>(r, nullable, n, ty, |r| r.int()),
        Duration(TimeUnit::Millisecond) => fixed::<DurationMillisecondType>(r, nullable, n, ty, |r| r.int()),
        Duration(TimeUnit::Microsecond) => fixed::<DurationMicrosecondType>(r, nullable, n, ty, |r| r.int()),
        Duration(TimeUnit::Nanosecond) => fixed::<DurationNanosecondType>(r, nullable, n, ty, |r| r.int()),
        Interval(IntervalUnit::YearMonth) => fixed::<IntervalYearMonthType>(r, nullable, n, ty, |r| r.int() as i32),
        Interval(IntervalUnit::DayTime) => fixed::<IntervalDayTimeType>(r, nullable, n, ty, |r| IntervalDayTime::new(r.int() as i32, r.int() as i32)),
        Interval(IntervalUnit::MonthDayNano) => fixed::<IntervalMonthDayNanoType>(r, nullable, n, ty, |r| IntervalMonthDayNano::new(r.int() as i32, r.int() as i32, r.int())),
        Decimal32(..) => fixed::<Decimal32Type>(r, nullable, n, ty, |r| (r.int() % 10_000_000) as i32),
        Decimal64(..) => fixed::<Decimal64Type>(r, nullable, n, ty, |r| r.int() % 1_000_000_000_000_000),
        Decimal128(..) => fixed::<Decimal128Type>(r, nullable, n, ty, |r| r.int() as i128 * 7),
        Decimal256(..) => fixed::<Decimal256Type>(r, nullable, n, ty, |r| i256::from_i128(r.int() as i128 * r.int() as i128)),
        Utf8 => texts!(StringArray),
        LargeUtf8 => texts!(LargeStringArray),
        Utf8View => texts!(StringViewArray),
        Binary => bins!(BinaryArray),
        LargeBinary => bins!(LargeBinaryArray),
        BinaryView => bins!(BinaryViewArray),
        FixedSizeBinary(w) => {
            let v: Vec<u8> = (0..n * *w as usize).map(|_| r.next() as u8).collect();
            Arc::new(FixedSizeBinaryArray::new(*w, Buffer::from_vec(v), nulls(r, nullable, n)))
        }
        Dictionary(k, v) => {
            // (merging batches must not run out of keys)
            let size = [1, 3, 20, 100][r.below(if matches!(**k, Int8 | UInt8) { 2 } else { 4 })];
            // null in the values, unused and repeated values
            let vn = nullable && r.below(3) == 0;
            let values = gen_array(r, v, vn, size);
            let used = r.below(size) + 1;
            let keys = gen_keys(r, k, nullable, n, used);
            macro_rules! dict {
                ($($t:ident $ty:ident),*) => {
                    match **k { $($t => Arc::new(DictionaryArray::<$ty>::try_new(keys.as_primitive::<$ty>().clone(), values).unwrap()) as ArrayRef,)* _ => unreachable!() }
                };
            }
            dict!(Int8 Int8Type, Int16 Int16Type, Int32 Int32Type, Int64 Int64Type, UInt8 UInt8Type, UInt16 UInt16Type, UInt32 UInt32Type, UInt64 UInt64Type)
        }
        List(f) => {
            let (o, m) = offsets(r, n);
            Arc::new(ListArray::new(Arc::clone(f), OffsetBuffer::new(o.iter().map(|x| *x as i32).collect::<Vec<_>>().into()), gen_array(r, f.data_type(), f.is_nullable(), m), nulls(r, nullable, n)))
        }
        LargeList(f) => {
            let (o, m) = offsets(r, n);
            Arc::new(LargeListArray::new(Arc::clone(f), OffsetBuffer::new(o.iter().map(|x| *x as i64).collect::<Vec<_>>().into()), gen_array(r, f.data_type(), f.is_nullable(), m), nulls(r, nullable, n)))
        }
        FixedSizeList(f, w) => Arc::new(FixedSizeListArray::new(Arc::clone(f), *w, gen_array(r, f.data_type(), f.is_nullable(), n * *w as usize), nulls(r, nullable, n))),
        Struct(fields) => {
            let nb = nulls(r, nullable, n);
            if fields.is_empty() {
                return Arc::new(StructArray::new_empty_fields(n, nb));
            }
            Arc::new(StructArray::new(fields.clone(), fields.iter().map(|f| gen_array(r, f.data_type(), f.is_nullable(), n)).collect(), nb))
        }
        Map(f, s) => {
            let (o, m) = offsets(r, n);
            let Struct(kv) = f.data_type() else { unreachable!() };
            let e = StructArray::new(kv.clone(), kv.iter().map(|f| gen_array(r, f.data_type(), f.is_nullable(), m)).collect(), None);
            Arc::new(MapArray::new(Arc::clone(f), OffsetBuffer::new(o.iter().map(|x| *x as i32).collect::<Vec<_>>().into()), e, nulls(r, nullable, n), *s))
        }
        Union(fields, mode) => {
            let ids: Vec<i8> = fields.iter().map(|(i, _)| i).collect();
            let pick: Vec<usize> = (0..n).map(|_| r.below(ids.len())).collect();
            let types: Vec<i8> = pick.iter().map(|i| ids[*i]).collect();
            let mut counts = vec![0usize; ids.len()];
            let off: Vec<i32> = pick.iter().map(|i| { counts[*i] += 1; counts[*i] as i32 - 1 }).collect();
            let sparse = *mode == UnionMode::Sparse;
            let children = fields.iter().enumerate().map(|(i, (_, f))| gen_array(r, f.data_type(), f.is_nullable(), if sparse { n } else { counts[i] })).collect();
            Arc::new(UnionArray::try_new(fields.clone(), types.into(), (!sparse).then(|| off.into()), children).unwrap())
        }
        RunEndEncoded(k, v) => {
            let mut ends = vec![];
            let mut e = 0;
            while e < n {
                e = (e + 1 + r.below(4)).min(n);
                ends.push(e as i64);
            }
            let values = gen_array(r, v.data_type(), v.is_nullable(), ends.len());
            match k.data_type() {
                Int16 => Arc::new(RunArray::<Int16Type>::try_new(&ends.iter().map(|x| *x as i16).collect::<Vec<_>>().into(), &values).unwrap()),
                Int32 => Arc::new(RunArray::<Int32Type>::try_new(&ends.iter().map(|x| *x as i32).collect::<Vec<_>>().into(), &values).unwrap()),
                _ => Arc::new(RunArray::<Int64Type>::try_new(&ends.into(), &values).unwrap()),
            }
        }
        _ => unreachable!("{ty}"),
    }
}

fn gen_keys(r: &mut Rng, k: &DataType, nullable: bool, n: usize, size: usize) -> ArrayRef {
    use DataType::*;
    match k {
        Int8 => fixed::<Int8Type>(r, nullable, n, k, |r| r.below(size) as i8),
        Int16 => fixed::<Int16Type>(r, nullable, n, k, |r| r.below(size) as i16),
        Int32 => fixed::<Int32Type>(r, nullable, n, k, |r| r.below(size) as i32),
        Int64 => fixed::<Int64Type>(r, nullable, n, k, |r| r.below(size) as i64),
        UInt8 => fixed::<UInt8Type>(r, nullable, n, k, |r| r.below(size) as u8),
        UInt16 => fixed::<UInt16Type>(r, nullable, n, k, |r| r.below(size) as u16),
        UInt32 => fixed::<UInt32Type>(r, nullable, n, k, |r| r.below(size) as u32),
        _ => fixed::<UInt64Type>(r, nullable, n, k, |r| r.below(size) as u64),
    }
}

fn offsets(r: &mut Rng, n: usize) -> (Vec<usize>, usize) {
    let mut o = vec![0];
    for _ in 0..n {
        o.push(o[o.len() - 1] + [0, 0, 1, 2, 3][r.below(5)]);
    }
    let m = o[n];
    (o, m)
}

/// Where each row of a set of batches is.
fn by_id(batches: &[RecordBatch]) -> Vec<(i64, usize, usize)> {
    let mut v = vec![];
    for (b, batch) in batches.iter().enumerate() {
        let id = batch.column(0).as_primitive::<Int64Type>();
        v.extend(id.values().iter().enumerate().map(|(i, x)| (*x, b, i)));
    }
    v
}

fn same_row(a: &RecordBatch, i: usize, b: &RecordBatch, j: usize) -> Result<(), String> {
    for c in 0..a.num_columns() {
        let (x, y) = (a.column(c).slice(i, 1), b.column(c).slice(j, 1));
        if x.to_data() != y.to_data() {
            return Err(format!("column {} {}: {:?} arrived as {:?}", c, a.schema().field(c), x, y));
        }
    }
    Ok(())
}

struct Spec {
    schema: SchemaRef,
    chunks: Vec<Vec<RecordBatch>>,
    text: String,
}

fn gen_table(t: &mut Tape) -> Spec {
    let empty = t.chance(1, 12);
    let mut fields = vec![];
    if !empty {
        fields.push(Field::new("id", DataType::Int64, false));
        for i in 0..[1, 2, 3, 0][t.weighted(&[5, 3, 2, 1])] {
            let depth = t.weighted(&[4, 3, 2]);
            fields.push(gen_column(t, &format!("c{i}"), depth));
        }
    }
    let schema = Arc::new(Schema::new(fields).with_metadata(metadata(t)));
    let mut r = Rng(t.raw() as u64);
    let n = t.range(1, 5);
    let mut chunks = vec![];
    // consecutive batches that share arrays
    let share = t.chance(1, 4);
    for c in 0..n {
        let mut v = vec![];
        let mut id = c as i64 * 1_000_000;
        let nb = t.weighted(&[1, 3, 3, 2, 1]);
        let mut pool: Option<Vec<ArrayRef>> = None;
        for _ in 0..nb {
            let rows = match t.weighted(&[5, 2, 3, 1]) {
                0 => t.range(1, 12),
                1 => 0,
                2 => t.range(13, 70),
                _ => t.range(100, 1500),
            };
            let mut cols: Vec<ArrayRef> = vec![];
            if !empty {
                cols.push(Arc::new((id..id + rows as i64).collect::<Int64Array>()));
                id += rows as i64;
                let all = match &pool {
                    Some(p) if share => p.clone(),
                    _ => {
                        let big = if share { 1500 } else { rows };
                        schema.fields().iter().skip(1).map(|f| gen_array(&mut r, f.data_type(), f.is_nullable(), big)).collect()
                    }
                };
                let at = if share { r.below(1500 - rows) } else { 0 };
                cols.extend(all.iter().map(|a| a.slice(at, rows)));
                pool = Some(all);
            }
            v.push(RecordBatch::try_new_with_options(Arc::clone(&schema), cols, &RecordBatchOptions::new().with_row_count(Some(rows))).unwrap());
        }
        chunks.push(v);
    }
    let sizes: Vec<Vec<usize>> = chunks.iter().map(|v| v.iter().map(|b| b.num_rows()).collect()).collect();
    let text = format!("{:?} rows={sizes:?} share={share}", schema.fields().iter().map(|f| f.to_string()).collect::<Vec<_>>());
    Spec { schema, chunks, text }
}

fn batches(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[4, 1])];
    let workers = t.range(1, 3);
    let spec = gen_table(t);
    let mut opts = gen_opts(t, workers);
    opts.compression = t.below(3) as u8;
    let empty = spec.schema.fields().is_empty();
    let mut d = TableData::new("t", Arc::clone(&spec.schema), spec.chunks.clone());
    d.ctx_mode = t.chance(1, 3);
    d.yield_every = t.below(2);
    let data = d.build();
    let parts = t.range(1, 4);
    let tasks = t.range(2, 3);
    let kind = if empty { [0, 2][t.below(2)] } else { t.weighted(&[3, 2, 2]) };
    let consumers = t.weighted(&[0, 3, 2, 1]);
    let sp = t.range(1, 4);
    let mut plan = scan(&data, parts);
    plan = match kind {
        0 => Arc::new(NetworkCoalesceExec::try_new(plan, tasks, consumers).unwrap()),
        1 => {
            let k = vec![col(&plan, 0)];
            shuffle(plan, k, sp, tasks).unwrap()
        }
        _ => Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(plan, consumers)), tasks).unwrap()),
    };
    let log = ProbeLog::plain();
    plan = probe(plan, &log);
    let top = ProbeLog::plain();
    if consumers > 1 {
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, consumers, 1).unwrap());
        plan = probe(plan, &top);
    }
    let plan: Arc<dyn ExecutionPlan> = Arc::new(CoalescePartitionsExec::new(plan));
    let desc = format!("{} {tasks} tasks x {parts} -> {consumers} tasks; {} workers={workers} threads={threads} {opts:?}", ["coalesce", "shuffle", "broadcast"][kind], spec.text);
    let dsc = desc.clone();
    guard(threads, &desc, async move {
        let d = dsc;
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let plan = match run_placed(&cluster, &opts, plan).await {
            Ok(x) => x.1,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let times = if kind == 2 { consumers } else { 1 };
        let want_rows = data.total_rows();
        let sent: HashMap<i64, (usize, usize, usize)> = if empty {
            HashMap::new()
        } else {
            spec.chunks.iter().enumerate().flat_map(|(c, v)| by_id(v).into_iter().map(move |(id, b, i)| (id, (c, b, i)))).collect()
        };
        let mut logs = vec![&log];
        if consumers > 1 {
            logs.push(&top);
        }
        for l in logs {
            let mut seen: BTreeMap<i64, usize> = BTreeMap::new();
            let mut n = 0;
            for run in l.runs() {
                let mut last: BTreeMap<i64, i64> = BTreeMap::new();
                for b in &run.batches {
                    n += b.num_rows();
                    if b.schema() != spec.schema {
                        return fail("schema", format!("{:?}\narrived as\n{:?}", spec.schema, b.schema()), &d);
                    }
                }
                if empty {
                    continue;
                }
                for (id, b, i) in by_id(&run.batches) {
                    let Some((c, sb, si)) = sent.get(&id).copied() else {
                        return fail("unknown row", format!("row {id}"), &d);
                    };
                    if let Err(m) = same_row(&spec.chunks[c][sb], si, &run.batches[b], i) {
                        return fail("value", format!("row {id}: {m}"), &d);
                    }
                    *seen.entry(id).or_default() += 1;
                    let p = last.insert(id / 1_000_000, id);
                    if kind != 1 && p.is_some_and(|p| p >= id) {
                        return fail("order", format!("row {id} after {p:?}"), &d);
                    }
                }
            }
            if n != want_rows * times {
                return fail("rows", format!("{n} rows arrived, {} were sent", want_rows * times), &d);
            }
            if !empty && let Some((id, k)) = seen.iter().find(|(_, k)| **k != times) {
                return fail("rows", format!("row {id} arrived {k} times"), &d);
            }
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = want_rows > 0;
        for f in spec.schema.fields().iter().skip(1) {
            let s = format!("{:?}", f.data_type());
            info.class(format!("type {}", s.chars().take_while(|c| c.is_alphanumeric()).collect::<String>()));
        }
        info.class(format!("compression {}", ["none", "lz4", "zstd"].get(opts.compression as usize).unwrap_or(&"?")));
        if empty {
            info.class("no columns");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "at least one row crossed a network boundary",
        tape_len: 200,
        quick: 24000,
        thorough: 200000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["the hash of a shuffle is over an integer column", "all processes have one endianness"],
        parts: vec![Part { name: "batches", weight: 1, run: batches }],
    }
}
