"""Stand-in for mcap.reader: reading order, optional summary and failures of the real one, another file format."""
import json
from types import SimpleNamespace as NS
from typing import NamedTuple

MAGIC = b"\x89MCAP0\r\n"


class McapError(Exception):
    pass


class DecodedMessageTuple(NamedTuple):
    schema: object
    channel: object
    message: object


class SeekingReader:
    def __init__(self, stream, validate_crcs=False, decoder_factories=(), record_size_limit=None):
        b = stream.read()
        if not b.startswith(MAGIC):
            raise McapError("not a valid MCAP file, invalid magic")
        self.bag = json.loads(b[len(MAGIC):])
        self.schemas = {int(k): NS(id=int(k), name=n, encoding="ros2msg", data=b"") for k, n in self.bag["schemas"].items()}
        self.channels = {int(k): NS(id=int(k), topic=t, schema_id=s, message_encoding="cdr", metadata={}) for k, (t, s) in self.bag["channels"].items()}

    def get_header(self):
        return NS(profile="ros2", library="")

    def get_summary(self):
        if self.bag["summary"] == 0:
            return None
        ts = [m["t"] for m in self.bag["msgs"]]
        st = NS(message_count=len(ts), schema_count=len(self.schemas), channel_count=len(self.channels), attachment_count=0, metadata_count=0, chunk_count=1, message_start_time=min(ts, default=0), message_end_time=max(ts, default=0),
                channel_message_counts={c: sum(m["ch"] == c for m in self.bag["msgs"]) for c in self.channels})
        return NS(statistics=st if self.bag["summary"] == 2 else None, schemas=dict(self.schemas), channels=dict(self.channels), chunk_indexes=[], attachment_indexes=[], metadata_indexes=[])

    def iter_messages(self, topics=None, start_time=None, end_time=None, log_time_order=True, reverse=False):
        ms = list(self.bag["msgs"])
        if log_time_order:
            ms.sort(key=lambda m: m["t"], reverse=reverse)
        elif reverse:
            ms.reverse()
        if isinstance(topics, str):
            topics = [topics]
        for k, m in enumerate(ms):
            if self.bag.get("breaks") is not None and k == self.bag["breaks"]:
                raise McapError("crc of chunk does not match")
            c = self.channels[m["ch"]]
            if topics is not None and c.topic not in topics or start_time is not None and m["t"] < start_time or end_time is not None and m["t"] >= end_time:
                continue
            yield DecodedMessageTuple(self.schemas.get(c.schema_id), c, NS(channel_id=m["ch"], sequence=k, log_time=m["t"], publish_time=m["t"] - 5, data=bytes.fromhex(m["d"])))


def make_reader(stream, validate_crcs=False, decoder_factories=()):
    return SeekingReader(stream, validate_crcs, decoder_factories)


NonSeekingReader = SeekingReader
