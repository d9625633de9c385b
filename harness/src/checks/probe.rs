//! Runs the statements of a file; prints results. A debugging aid.
use crate::sess::*;
use crate::store::*;
use std::sync::Arc;
use std::time::Instant;

pub fn main(args: &[String]) {
    let file = args[0].clone();
    big_stack(move || {
        let rt = current_thread();
        rt.block_on(async {
            let store = SimStore::new(Image::default());
            let server = Server::start(config());
            let mut s = server.session("s").await.with_store("memory://sim", Arc::new(store.clone()));
            let text = std::fs::read_to_string(file).unwrap();
            let mut n = 0;
            for q in text.split(';') {
                let q = q.trim();
                if q.is_empty() {
                    continue;
                }
                match q {
                    "!session" => {
                        let t = Instant::now();
                        n += 1;
                        s = server.session(&format!("s{n}")).await.with_store("memory://sim", Arc::new(store.clone()));
                        println!("new session {:?}", t.elapsed());
                        continue;
                    }
                    "!server" => {
                        let t = Instant::now();
                        let server = Server::start(config());
                        n += 1;
                        s = server.session(&format!("s{n}")).await.with_store("memory://sim", Arc::new(store.clone()));
                        std::mem::forget(server);
                        println!("new server {:?}", t.elapsed());
                        continue;
                    }
                    "!ls" => {
                        for p in store.image().map {
                            println!("  {} {}", p.0, p.1.data.len());
                        }
                        continue;
                    }
                    "!log" => {
                        for p in store.image().map {
                            if p.0.to_string().ends_with(".json") {
                                println!("  {}\n{}", p.0, String::from_utf8_lossy(&p.1.data));
                            }
                        }
                        continue;
                    }
                    _ => {}
                }
                let t = Instant::now();
                let r = s.rows(q).await;
                println!("{q}\n   -> {r:?}   [{:?}]", t.elapsed());
            }
        });
    });
}
