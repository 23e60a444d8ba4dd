//! Binds the codec checks to the real decoder and encoder.
use bytes::BytesMut;
use mccore::codec::{Out, Pkt, Will};
use mccore::props::codec24::{self, Sink};
use ratelmq::mqtt::packets::connack::{ConnAckPacket, ConnAckReturnCode};
use ratelmq::mqtt::packets::puback::PubAckPacket;
use ratelmq::mqtt::packets::pubcomp::PubCompPacket;
use ratelmq::mqtt::packets::pubrec::PubRecPacket;
use ratelmq::mqtt::packets::pubrel::PubRelPacket;
use ratelmq::mqtt::packets::suback::{SubAckPacket, SubAckReturnCode};
use ratelmq::mqtt::packets::unsuback::UnSubAckPacket;
use ratelmq::mqtt::packets::{ControlPacket, PublishPacket, QoS};
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
use ratelmq::mqtt::transport::packet_decoder::read_packet;
use ratelmq::mqtt::transport::packet_encoder::write_packet;
use std::future::Future;
use std::pin::Pin;
use tokio::net::TcpStream;

fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

fn convert(p: ControlPacket) -> Pkt {
    match p {
        ControlPacket::Connect(c) => Pkt::Connect {
            id: c.client_id,
            clean: c.clean_session,
            keep: c.keep_alive_seconds,
            will: c.will_message.map(|m| Will { topic: m.topic, payload: m.payload.to_vec(), qos: m.qos as u8, retain: m.retain }),
            user: c.user_name,
            pass: c.password,
        },
        ControlPacket::Publish(p) => Pkt::Publish {
            topic: p.message.topic,
            payload: p.message.payload.to_vec(),
            qos: p.message.qos as u8,
            retain: p.message.retain,
            dup: p.dup,
            id: p.packet_id.unwrap_or(0),
        },
        ControlPacket::Subscribe(s) => Pkt::Subscribe {
            id: s.packet_id,
            filters: s
                .subscriptions
                .iter()
                .map(|x| {
                    let q = (0..3).find(|q| *x == Subscription::new(x.topic().to_string(), qos(*q)));
                    (x.topic().to_string(), q.unwrap_or(99))
                })
                .collect(),
        },
        ControlPacket::Unsubscribe(u) => Pkt::Unsubscribe { id: u.packet_id, filters: u.topics },
        ControlPacket::PingReq => Pkt::PingReq,
        ControlPacket::Disconnect(_) => Pkt::Disconnect,
        ControlPacket::PubAck(a) => Pkt::PubAck(a.packet_id),
        ControlPacket::PubRec(a) => Pkt::PubRec(a.packet_id),
        ControlPacket::PubRel(a) => Pkt::PubRel(a.packet_id),
        ControlPacket::PubComp(a) => Pkt::PubComp(a.packet_id),
        other => Pkt::Raw(format!("{:?}", other).into_bytes()),
    }
}

fn decode(s: TcpStream, sink: Sink) -> Pin<Box<dyn Future<Output = ()>>> {
    Box::pin(async move {
        let (read, _write) = s.into_split();
        let mut stream = MqttBytesReadStream::new(4096, read);
        loop {
            match read_packet(&mut stream).await {
                Ok(p) => sink.borrow_mut().push(Ok(convert(p))),
                Err(e) => {
                    sink.borrow_mut().push(Err(e.to_string()));
                    break;
                }
            }
        }
    })
}

fn server_packet(o: &Out) -> ControlPacket {
    match o {
        Out::ConnAck { sp, rc } => ControlPacket::ConnAck(ConnAckPacket::new(
            *sp == 1,
            match rc {
                0 => ConnAckReturnCode::Accepted,
                1 => ConnAckReturnCode::UnacceptableProtocolVersion,
                2 => ConnAckReturnCode::IdentifierRejected,
                3 => ConnAckReturnCode::ServerUnavailable,
                4 => ConnAckReturnCode::BadUserNameOrPassword,
                _ => ConnAckReturnCode::NotAuthorized,
            },
        )),
        Out::Publish { topic, payload, qos: q, retain, dup, id } => ControlPacket::Publish(PublishPacket::new(
            String::from_utf8(topic.clone()).unwrap(),
            BytesMut::from(&payload[..]),
            qos(*q),
            *retain,
            *id,
            *dup,
        )),
        Out::SubAck { id, codes } => ControlPacket::SubAck(SubAckPacket::new(
            *id,
            codes
                .iter()
                .map(|c| match c {
                    0 => SubAckReturnCode::SuccessQoS0,
                    1 => SubAckReturnCode::SuccessQoS1,
                    2 => SubAckReturnCode::SuccessQoS2,
                    _ => SubAckReturnCode::Failure,
                })
                .collect(),
        )),
        Out::UnsubAck(i) => ControlPacket::UnsubAck(UnSubAckPacket::new(*i)),
        Out::PingResp => ControlPacket::PingResp,
        Out::Other(first, b) => {
            let id = u16::from_be_bytes([b[0], b[1]]);
            match first >> 4 {
                4 => ControlPacket::PubAck(PubAckPacket::new(id)),
                5 => ControlPacket::PubRec(PubRecPacket::new(id)),
                6 => ControlPacket::PubRel(PubRelPacket::new(id)),
                _ => ControlPacket::PubComp(PubCompPacket::new(id)),
            }
        }
    }
}

fn encode(s: TcpStream, packets: Vec<Out>) -> Pin<Box<dyn Future<Output = ()>>> {
    Box::pin(async move {
        let (_read, write) = s.into_split();
        let mut stream = MqttBytesWriteStream::new(4096, write);
        for p in &packets {
            write_packet(&mut stream, server_packet(p)).await.expect("write_packet");
        }
        // keep the connection: what was not written by now is withheld
        std::future::pending::<()>().await
    })
}

fn main() {
    mccore::report::main(codec24::checks(decode, encode))
}
