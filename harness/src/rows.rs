//! Canonical row rendering.
use arrow::array::RecordBatch;
use arrow::util::display::{ArrayFormatter, FormatOptions};

pub type Row = Vec<String>;

pub fn rows(batches: &[RecordBatch]) -> Result<Vec<Row>, String> {
    let opts = FormatOptions::default().with_null("NULL");
    let mut out = vec![];
    for b in batches {
        let fmts = b
            .columns()
            .iter()
            .map(|c| ArrayFormatter::try_new(c.as_ref(), &opts))
            .collect::<Result<Vec<_>, _>>()
            .map_err(|e| e.to_string())?;
        for r in 0..b.num_rows() {
            out.push(
                fmts.iter()
                    .map(|f| f.value(r).try_to_string().map_err(|e| e.to_string()))
                    .collect::<Result<Row, _>>()?,
            );
        }
    }
    Ok(out)
}

pub fn sorted(mut v: Vec<Row>) -> Vec<Row> {
    v.sort();
    v
}

pub fn bag(batches: &[RecordBatch]) -> Result<Vec<Row>, String> {
    Ok(sorted(rows(batches)?))
}
