//! A minimal HTTP/1.1 client.
use serde_json::Value;
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use vf::cluster::patience;
use vf::*;

pub struct Answer {
    pub status: u16,
    pub body: Vec<u8>,
}
impl Answer {
    pub fn json(&self, what: &str) -> Result<Value, Fail> {
        ensure!(self.status == 200, "GET {what} is answered with status {}: {:?}", self.status, String::from_utf8_lossy(&self.body));
        serde_json::from_slice(&self.body).map_err(|e| Fail::Safety(format!("GET {what} is answered with {:?}, which is not JSON: {e}", String::from_utf8_lossy(&self.body))))
    }
}

fn parse(path: &str, raw: &[u8]) -> Result<Answer, Fail> {
    let cut = |m: String| Fail::Safety(format!("GET {path}: {m} {:?}", String::from_utf8_lossy(raw)));
    ensure!(!raw.is_empty(), "GET {path} is not answered: the connection is closed");
    let end = raw.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| cut("the answer has no end of headers".into()))?;
    let head = String::from_utf8_lossy(&raw[..end]).to_string();
    let status: u16 = head.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| cut("no status".into()))?;
    let mut body = raw[end + 4..].to_vec();
    let lower = head.to_lowercase();
    if lower.contains("transfer-encoding: chunked") {
        let mut out = vec![];
        let mut rest = &body[..];
        loop {
            let l = rest.windows(2).position(|w| w == b"\r\n").ok_or_else(|| cut("broken chunk".into()))?;
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..l]).unwrap_or("?").trim(), 16).map_err(|_| cut("broken chunk size".into()))?;
            if n == 0 {
                break;
            }
            if rest.len() < l + 2 + n + 2 {
                return Err(cut("chunk cut short".into()));
            }
            out.extend_from_slice(&rest[l + 2..l + 2 + n]);
            rest = &rest[l + 2 + n + 2..];
        }
        body = out;
    } else if let Some(n) = lower.lines().find_map(|l| l.strip_prefix("content-length:").and_then(|n| n.trim().parse::<usize>().ok())) {
        ensure!(body.len() == n, "GET {path}: {n} bytes are announced, {} sent", body.len());
    }
    Ok(Answer { status, body })
}

/// One request; every request has to be answered.
pub async fn get(addr: &str, path: &str) -> Result<Answer, Fail> {
    let t = Instant::now();
    let mut s = loop {
        match TcpStream::connect(addr).await {
            Ok(s) => break s,
            Err(e) if t.elapsed() > patience() => return Err(Fail::Deadline(format!("the API cannot be reached: {e}"))),
            Err(_) => tokio::time::sleep(Duration::from_millis(5)).await,
        }
    };
    let q = format!("GET {path} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
    let raw = tokio::time::timeout(patience(), async {
        s.write_all(q.as_bytes()).await?;
        let mut b = vec![];
        s.read_to_end(&mut b).await?;
        Ok::<_, std::io::Error>(b)
    })
    .await;
    match raw {
        Err(_) => Err(Fail::Deadline(format!("GET {path} is not answered within {:?}", patience()))),
        Ok(Err(e)) => Err(Fail::Deadline(format!("GET {path}: {e}"))),
        Ok(Ok(b)) => parse(path, &b),
    }
}
