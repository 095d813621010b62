// dev: file of  O|E \t err \t text
use std::panic::*;
fn main(){ set_hook(Box::new(|_|{}));
 let t=std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
 for l in t.lines(){ let f:Vec<&str>=l.splitn(3,'\t').collect(); let js=f[2].replace("\\n","\n");
  let r=catch_unwind(||{ let mut b=ressa::Builder::new(); b.js(js.as_str()); b.module(std::env::args().nth(2).is_some()); let mut p=b.build().map_err(|e|e.to_string())?; p.parse().map(|_|()).map_err(|e|e.to_string())});
  let s=match r { Err(_)=>{println!("PANIC\t\t{}",f[2]);continue}, Ok(Ok(()))=>"O".to_string(), Ok(Err(e))=>format!("E{}",e)};
  if s.as_bytes()[0]!=f[0].as_bytes()[0] { println!("{}\t{}\t{}",if f[0]=="O"{s}else{"ACCEPT ".into()},f[1],f[2]); } } }
