//! Stand-in for `tokio-tungstenite`: websocket connections on the simulated network, with its end-of-stream rules.
pub use tungstenite;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::io;
use futures::{Sink, Stream};
use tungstenite::{client::IntoClientRequest, handshake::client::Response, Message, Error, error::ProtocolError};
use simcore::net::*;

pub struct WebSocketStream<S>(Conn, std::marker::PhantomData<fn() -> S>);
pub struct MaybeTlsStream<S>(std::marker::PhantomData<fn() -> S>);
impl<S> Drop for WebSocketStream<S> { fn drop(&mut self) { self.0.dropped() } }
fn err(e: NetErr) -> Error { match e { NetErr::Closed => Error::ConnectionClosed, NetErr::Reset => Error::Protocol(ProtocolError::ResetWithoutClosingHandshake), NetErr::Broken => Error::Io(io::Error::from(io::ErrorKind::BrokenPipe)), NetErr::Refused => Error::Io(io::Error::from(io::ErrorKind::ConnectionRefused)) } }
pub async fn connect_async<R: IntoClientRequest + Unpin>(url: R) -> Result<(WebSocketStream<MaybeTlsStream<tokio::net::TcpStream>>, Response), Error> {
    let url = url.into_client_request()?.uri().to_string();
    if !(url.starts_with("ws://") || url.starts_with("wss://")) { return Err(Error::Url(tungstenite::error::UrlError::UnsupportedUrlScheme)) }
    let slot = Slot::new();
    let s2 = slot.clone();
    simcore::preempt();
    world(|w| w.connect(url, simcore::group(), s2));
    Wait(slot).await.map(|c| (WebSocketStream(c, std::marker::PhantomData), Response::new(None))).map_err(err)
}
impl<S> WebSocketStream<S> { pub async fn close(&mut self, _: Option<tungstenite::protocol::CloseFrame>) -> Result<(), Error> { self.0.send(Frame::Close).map_err(err) } }
impl<S> Stream for WebSocketStream<S> {
    type Item = Result<Message, Error>;
    fn poll_next(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.poll_read(c).map(|x| match x {
            None => None,
            Some(Ok(Frame::Text(s))) => Some(Ok(Message::Text(s.into()))),
            Some(Ok(Frame::Binary(b))) => Some(Ok(Message::Binary(b.into()))),
            Some(Ok(Frame::Ping(b))) => Some(Ok(Message::Ping(b.into()))),
            Some(Ok(Frame::Pong(b))) => Some(Ok(Message::Pong(b.into()))),
            Some(Ok(Frame::Close)) => Some(Ok(Message::Close(None))),
            Some(Err(NetErr::Closed)) => None,
            Some(Err(e)) => Some(Err(err(e))),
        })
    }
}
impl<S> Sink<Message> for WebSocketStream<S> {
    type Error = Error;
    fn poll_ready(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Result<(), Error>> { self.0.poll_ready(c).map_err(err) }
    fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
        self.0.send(match m {
            Message::Text(s) => Frame::Text(s.as_str().to_owned()),
            Message::Binary(b) => Frame::Binary(b.to_vec()),
            Message::Ping(b) => Frame::Ping(b.to_vec()),
            Message::Pong(b) => Frame::Pong(b.to_vec()),
            Message::Close(_) => Frame::Close,
            Message::Frame(_) => return Ok(()),
        }).map_err(err)
    }
    fn poll_flush(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Result<(), Error>> { self.0.poll_ready(c).map_err(err) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { let _ = self.0.send(Frame::Close); Poll::Ready(Ok(())) }
}
