use crate::json::{esc, float, int};
use dice_bytecode::{Bytecode, ConstantValue, Instruction};
use std::panic::catch_unwind;

/// byte -> instruction name, as the real encoding defines it (Debug name and listing name)
pub fn header() -> String {
    let mut names = Vec::new();
    for b in 0u16..256 {
        let r = catch_unwind(|| {
            let i: Instruction = (b as u8).into();
            let back: u8 = i.into();
            (format!("{:?}", i), format!("{}", i), back)
        });
        match r {
            Ok((d, s, back)) if back as u16 == b => names.push(format!("[{},{}]", esc(&d), esc(&s))),
            _ => names.push("[\"\",\"\"]".into()),
        }
    }
    format!("{{\"names\":[{}]}}", names.join(","))
}

/// operand kinds per instruction: u = u8, o = i16 offset, c = closure
fn layout(name: &str) -> &'static str {
    match name {
        "Jump" | "JumpIfFalse" | "JumpIfTrue" => "o",
        "PushConst" | "Dup" | "LoadModule" | "LoadGlobal" | "LoadLocal" | "LoadField" | "LoadMethod"
        | "LoadUpvalue" | "StoreGlobal" | "StoreLocal" | "StoreField" | "StoreMethod" | "StoreUpvalue"
        | "AssignLocal" | "AssignField" | "AssignUpvalue" | "CloseUpvalue" | "Call" | "CallSuper"
        | "CreateArray" | "InheritClass" | "AssertTypeForLocal" | "AssertTypeOrNullForLocal" => "u",
        "LoadFieldToLocal" => "uu",
        "CreateClosure" => "c",
        _ => "",
    }
}

pub fn unit(b: &Bytecode, name: &str, rows: bool) -> String {
    let mut bytes = Vec::new();
    let mut c = b.cursor();
    while c.remaining() > 0 {
        bytes.push(c.read_u8().to_string());
    }
    let mut o = format!(
        "{{\"name\":{},\"slots\":{},\"ups\":{},\"bytes\":[{}],\"consts\":[{}]",
        esc(name),
        b.slot_count(),
        b.upvalue_count(),
        bytes.join(","),
        b.constants().iter().map(|c| constant(c, rows)).collect::<Vec<_>>().join(",")
    );
    if rows {
        o += &format!(",\"rows\":[{}]", decode(b, bytes.len()));
    }
    o += "}";
    o
}

fn decode(b: &Bytecode, len: usize) -> String {
    let mut rows = Vec::new();
    let mut cur = b.cursor();
    while let Some(ins) = cur.read_instruction() {
        let at = cur.last_instruction_offset();
        let name = format!("{:?}", ins);
        let mut ops: Vec<i64> = Vec::new();
        let mut target: i64 = -1;
        for k in layout(&name).chars() {
            match k {
                'u' => ops.push(cur.read_u8() as i64),
                'o' => {
                    let off = cur.read_offset();
                    ops.push(off as i64);
                    // where the cursor says this jump goes; then come back
                    let here = cur.position();
                    cur.offset_position(off);
                    target = cur.position() as i64;
                    cur.set_position(here);
                }
                _ => {
                    let k = cur.read_u8() as usize;
                    ops.push(k as i64);
                    if let Some(ConstantValue::Function(f)) = b.constants().get(k) {
                        for _ in 0..f.bytecode.upvalue_count() {
                            ops.push(cur.read_u8() as i64);
                            ops.push(cur.read_u8() as i64);
                        }
                    }
                }
            }
        }
        let ok = cur.position() as usize + cur.remaining() as usize == len;
        rows.push(format!(
            "{{\"at\":{},\"op\":{},\"args\":[{}],\"to\":{},\"rem\":{}}}",
            at,
            esc(&name),
            ops.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            target,
            ok
        ));
    }
    rows.join(",")
}

fn constant(c: &ConstantValue, rows: bool) -> String {
    match c {
        ConstantValue::Int(v) => int(*v),
        ConstantValue::Float(v) => float(*v),
        ConstantValue::String(s) => format!("{{\"k\":\"str\",\"s\":{}}}", esc(s)),
        ConstantValue::Symbol(s) => format!("{{\"k\":\"sym\",\"s\":{}}}", esc(s)),
        ConstantValue::Function(f) => {
            format!("{{\"k\":\"fn\",\"unit\":{}}}", unit(&f.bytecode, &f.name, rows))
        }
    }
}
