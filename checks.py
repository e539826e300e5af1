"""What each check runs. See DESIGN.md."""


def c(rule, *phases, **kw):
    d = {"phases": list(phases), "level": "exploration", "rule": rule}
    d.update(kw)
    return d


def ph(test, quick=8, thorough=8, **kw):
    d = {"test": test, "shards": {"quick": quick, "thorough": thorough}}
    d.update(kw)
    return d


CHECKS = {
    "C01": c("distinct frames compared with the reference encoder", ph("TestC01", 4)),
    "C02": c("distinct (message type, body) pairs compared with the reference layout", ph("TestC02")),
    "C03": c("distinct damaged or mismatching frames given to the decoder", ph("TestC03")),
    "C04": c("distinct hostile bodies, frames and connection streams", ph("TestC04"),
             ph("TestC04", 2, 4, godebug="rsa1024min=1"), ph("TestC04Server")),
    "C05": c("distinct (stream, segmentation) pairs", ph("TestC05")),
    "C06": c("distinct oversize messages (type, grown field, size) and sends of unencodable messages", ph("TestC06"), ph("TestC06Server", 4)),
    "C07": c("distinct messages sent to live sessions", ph("TestC07")),
    "C08": c("distinct frames sent to live sessions whose replies were compared", ph("TestC08")),
    "C09": c("distinct (scenario, session, message, way of panicking) handler invocations", ph("TestC09")),
    "C10": c("distinct requests and answers in random histories (sequential and concurrent)", ph("TestC10"), ph("TestC10Conc")),
    "C11": c("distinct messages sent by concurrent senders and matched with the wire", ph("TestC11")),
    "C12": c("distinct (scenario, close causes, moment of closing) sessions", ph("TestC12")),
    "C13": c("distinct (scenario, cycle, connection states) stops", ph("TestC13"), ph("TestC13Restart", 4), ph("TestC13TCP", 1, 2)),
    "C14": c("distinct messages in activity patterns and distinct idle times at close", ph("TestC14")),
    "C15": c("distinct armings judged", ph("TestC15")),
    "C16": c("distinct uploads (terminal, message, media id, part count, order of arrival) and their deliveries", ph("TestC16"), ph("TestC16Conc", 4)),
    "C17": c("distinct writes (identity, part, content) in random histories of the store", ph("TestC17")),
    "C18": c("distinct bodies encrypted or decrypted and distinct alterations of encrypted frames", ph("TestC18"), ph("TestC18Server", 4)),
    "C19": c("distinct random concurrent workloads run under the race detector", ph("TestC19", race=True), ph("TestC19Run", 4, 8, race=True),
             ph("TestC19Timer", 2, 4, race=True), races=True),
    "C20": c("distinct broadcasts in random populations of sessions", ph("TestC20")),
    "C21": c("distinct (scenario, stalled terminal) histories", ph("TestC21")),
    "C22": c("distinct location reports with mixed extras and distinct messages of application-defined types", ph("TestC22"), ph("TestC22Server", 4)),
    "C23": c("distinct parameter settings and flag or size changes", ph("TestC23")),
    "C25": c("distinct messages sent, and timers used, from inside callbacks", ph("TestC25")),
    "C26": c("distinct (scenario, waiting callbacks) histories", ph("TestC26"), ph("TestC26Close", 4)),
    "C27": c("distinct frames and messages exchanged between terminals and server, both built on the library", ph("TestC27"), ph("TestC27TCP", 4, real=True)),
    "C28": c("distinct items written to and read from message bodies, and dates", ph("TestC28")),
    "C29": c("distinct steps in histories of several servers in one process", ph("TestC29")),
    "C24": c("distinct batches of sessions, uploads and hostile frames whose resources were counted", ph("TestC24"),
             ph("TestC24TCP", 1, 2), ph("TestC24Alloc", 2, 4)),
}
