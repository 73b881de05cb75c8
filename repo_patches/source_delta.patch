From 0be375412b4120a2a02e0ee6e5205ad0e4091dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:08 +0000
Subject: [PATCH 01/34] fix: reassemble the messages split between TCP segments

The data received was parsed segment by segment: a message split between two
segments was either rejected or, worse, read as two different messages, and an
invalid message discarded the valid ones that came before it.
---
 pyown/protocol/protocol.py | 50 ++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..a84b9b2 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -1,9 +1,10 @@
 import asyncio
 import logging
+import re
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidMessage, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -12,6 +13,9 @@ __all__ = [
 
 log = logging.getLogger("pyown.protocol")
 
+# What the beginning of a message looks like before its suffix is received
+_PARTIAL_MESSAGE = re.compile(r"\*[0-9#*]*")
+
 
 class OWNProtocol(Protocol):
     """Asyncio protocol for the OpenWebNet TCP connection.
@@ -40,6 +44,9 @@ class OWNProtocol(Protocol):
         # The queue was chosen because it supports both synchronous and asynchronous functions
         self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
 
+        # TCP does not preserve the message boundaries, so the beginning of a message not yet complete is kept here
+        self._buffer: str = ""
+
         self._lock = Lock()
 
     def connection_made(self, transport: BaseTransport):
@@ -71,29 +78,42 @@ class OWNProtocol(Protocol):
             data (bytes): The incoming data
         """
         # In OpenWebNet, the message is always written with ascii characters
+        error: Exception | None = None
         try:
-            text = data.decode("ascii").strip()
+            text = data.decode("ascii")
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
-            raise e
+            # What precedes the invalid data is still good
+            text = data[: e.start].decode("ascii")
+            error = e
 
-        # Sometimes multiple messages can be sent in the same packet
-        try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
-        except ParseError as e:
-            log.warning(f"Received invalid message: {e}")
-            raise e
+        # Sometimes multiple messages can be sent in the same packet, or a message can be split between packets
+        *messages, rest = (self._buffer + text).split(BaseMessage.suffix)
+        self._buffer = rest.lstrip()
 
-        # If there are no messages, return
-        if not messages:
-            return
+        for message in messages:
+            if not message.strip():
+                continue
 
-        log.debug(f"Received messages: {messages}")
+            try:
+                msg = parse_message(message + BaseMessage.suffix)
+            except ParseError as e:
+                log.warning(f"Received invalid message: {e}")
+                raise e
 
-        # Call the on_message_received future
-        for msg in messages:
+            log.debug(f"Received message: {msg!r}")
             self._messages_queue.put_nowait(msg)
 
+        if error is not None:
+            self._buffer = ""
+            raise error
+
+        # Data that can't become a message anymore
+        if self._buffer and _PARTIAL_MESSAGE.fullmatch(self._buffer) is None:
+            invalid, self._buffer = self._buffer, ""
+            log.warning(f"Received invalid data: {invalid}")
+            raise InvalidMessage(invalid)
+
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
         self._lock.acquire()
-- 
2.43.0


From 96726a046626d58439851581fe5c10f1bab8636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 02/34] fix: parse the messages with an unknown WHO as
 GenericMessage

As documented by parse_message; they raised ValueError, which made the
transport close the connection.
---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..3cf68ac 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # the WHO tag is unknown
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From 15d727778d10c7d488005f0dcd8fbdf1c5df6ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:45 +0000
Subject: [PATCH 03/34] fix: avoid the exponential backtracking of the message
 regex

The nested quantifiers made the time to reject an invalid message exponential
in its length. The language matched is the same.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 3cf68ac..115d11f 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From 09bf1a513a3c54a3b9a00d692eef105c25f2bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:47 +0000
Subject: [PATCH 04/34] fix: classify the dimension messages whose dimension
 has parameters

A dimension request with parameters (*#18*71#0*52#24#5##) was parsed as a
response, a dimension writing with parameters (*#18*71#0*#1200#1*5##) as a
response without its #, and the messages without values were serialised with
an extra separator.
---
 pyown/messages/dimension.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..4148371 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,9 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?##$"
+    )
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
@@ -61,7 +63,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
@@ -90,7 +92,7 @@ class DimensionWriting(BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*#{self.dimension}{''.join([f'*{value}' for value in self.values])}##"
 
     @classmethod
     def parse(cls, tags: list[str]) -> Self:
@@ -116,10 +118,10 @@ class DimensionResponse(DimensionWriting, BaseMessage):
 
     _type: MessageType = MessageType.DIMENSION_RESPONSE
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?(?:\*[0-9]*(?:#[0-9]*)*)+##$"
     )
 
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*{self.dimension}{''.join([f'*{value}' for value in self.values])}##"
-- 
2.43.0


From 577ef5b9c39a01b0a34d74fce351768b47743bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 05/34] fix: make GenericMessage hashable and independent from
 the caller's list

---
 pyown/messages/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 115d11f..6652e19 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
@@ -153,7 +153,7 @@ class GenericMessage(BaseMessage):
     """
 
     def __init__(self, tags: list[str]):
-        self._tags = tags
+        self._tags = list(tags)
 
     @property
     def message(self) -> str:
-- 
2.43.0


From 3660bdc82a437782c5cc17da380072db0c451c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:14 +0000
Subject: [PATCH 06/34] fix: calculate the HMAC authentication strings as
 documented

The protocol defines HMAC(Ra, Rb, A, B, Kab) and HMAC(Ra, Rb, Kab) as the SHA
of the concatenated strings; it was a keyed HMAC, and the server one had Ra
and Rb swapped.
---
 pyown/auth/hmac.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 1dc0b96..71d6eca 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -1,5 +1,5 @@
 from hashlib import sha1, sha256
-from hmac import HMAC, compare_digest
+from hmac import compare_digest
 from secrets import token_bytes
 
 from .enum import AuthAlgorithm
@@ -45,13 +45,8 @@ def client_hmac(
     kab = hash_function(password.encode()).hexdigest()
     hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
 
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
-
-    return hmac.digest()
+    # what the documentation calls HMAC is the plain hash of the concatenated strings
+    return hash_function(hmac_message.encode()).digest()
 
 
 def server_hmac(
@@ -79,15 +74,10 @@ def server_hmac(
         raise ValueError("Invalid hash algorithm")
 
     kab = hash_function(password.encode()).hexdigest()
-    hmac_message = f"{client_key}{server_key}{kab}"
-
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
+    hmac_message = f"{server_key}{client_key}{kab}"
 
-    return hmac.digest()
+    # what the documentation calls HMAC is the plain hash of the concatenated strings
+    return hash_function(hmac_message.encode()).digest()
 
 
 def compare_hmac(
-- 
2.43.0


From cc363a2d075104b32911e1e28254d8afc52ca25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:16 +0000
Subject: [PATCH 07/34] fix: follow the documented frames in the HMAC handshake

The server key kept its # and was not converted from digits to hex, the client
answer missed the # and the server answer was converted in the wrong direction,
so the HMAC authentication always failed.
---
 pyown/auth/hmac.py   |  8 ++++++++
 pyown/client/base.py | 28 +++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 71d6eca..a13d252 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -145,9 +145,17 @@ def digits_to_hex(
 
     Returns:
         str: the hex string
+
+    Raises:
+        ValueError: if the string is not a sequence of two-digit values between 00 and 15
     """
+    if len(digits_string) % 2 != 0:
+        raise ValueError("The digit string must have an even length")
+
     out = ""
     for i in range(0, len(digits_string), 2):
         value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
+        if value > 15:
+            raise ValueError(f"Invalid hex digit: {value}")
         out += hex(value)[2:]
     return out
diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..02acbb4 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -170,7 +171,7 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        server_key = self._parse_hmac_message(resp)
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -191,7 +192,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -200,11 +201,32 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(server_auth.hex().encode(), self._parse_hmac_message(resp).encode()):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
 
+    @staticmethod
+    def _parse_hmac_message(message: BaseMessage) -> str:
+        """Extracts the key or the hash sent by the server during the hmac authentication (`*#DIGITS##`).
+
+        Args:
+            message (BaseMessage): The message sent by the server
+
+        Returns:
+            str: the key or the hash in hex format
+
+        Raises:
+            InvalidAuthentication: if the message does not contain a key
+        """
+        if message.type != MessageType.GENERIC or len(message.tags) != 1:
+            raise InvalidAuthentication("Invalid authentication response")
+
+        try:
+            return digits_to_hex(message.tags[0].removeprefix("#"))
+        except ValueError:
+            raise InvalidAuthentication("Invalid authentication response")
+
     async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
         """Sends a message to the server.
 
-- 
2.43.0


From 6a6c33330e145cfeb0497626c8fbb40cdf8f99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:37 +0000
Subject: [PATCH 08/34] fix: end the client loop when the connection is dropped
 or closed

The loop kept waiting for a message that could not arrive anymore, or failed
with AttributeError when the client was closed by a callback.
---
 pyown/client/client.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..9da8e83 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -112,13 +112,25 @@ class Client(BaseClient):
             client = self
 
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        while self._transport is not None:
+            # by putting timeout as None, it will wait indefinitely for a message
+            reader = self._loop.create_task(self.read_message(timeout=None))
             try:
-                # by putting timeout as None, it will wait indefinitely for a message
-                message = await self.read_message(timeout=None)
+                await asyncio.wait(
+                    (reader, self._on_connection_end), return_when=asyncio.FIRST_COMPLETED
+                )
+                if not reader.done():
+                    # the connection ended, and all the messages received before were dispatched
+                    break
+                message = reader.result()
+            except InvalidSession:
+                # the client was closed
+                break
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
+            finally:
+                reader.cancel()
 
             # ignore status messages
             if message.type == MessageType.ACK or message.type == MessageType.NACK:
-- 
2.43.0


From f519ff7953be1aab2649b8c4f05e3c7e5d5d5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:38 +0000
Subject: [PATCH 09/34] fix: do not stop the client loop on an event with an
 invalid WHERE

The energy items reject the addresses they do not know (*#18*0*113*5##), and
an actuator address without #0 raised IndexError instead of InvalidTag.
---
 pyown/client/client.py       | 3 +++
 pyown/items/energy/energy.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 9da8e83..2984ce9 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -151,6 +151,9 @@ class Client(BaseClient):
             except KeyError:
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
+            except InvalidTag as e:
+                log.warning(f"Tag not supported {e.tag}")
+                continue
 
             await self._dispatch_callbacks(item, message)
 
diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..77c1eea 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters[:1] == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From 96bd8aa3f10749b35cb2ddfb43ffaccea301eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 10/34] fix: do not wait forever to send a message when the
 connection is lost

The writing is never resumed on a lost connection.
---
 pyown/protocol/protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index a84b9b2..05de8c1 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -63,6 +63,11 @@ class OWNProtocol(Protocol):
             log.info(f"Connection lost with exception: {exc}")
         else:
             log.info("Connection lost")
+
+        # Don't leave waiting forever who was waiting to send a message
+        if self._lock.locked():
+            self._lock.release()
+
         if exc is None:
             self._on_connection_end.set_result(None)
         else:
-- 
2.43.0


From 1c9b2c356f2633f74ae242308cd88c67d2a48892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:15 +0000
Subject: [PATCH 11/34] fix: call the energy callbacks of the dimensions with
 parameters

The parameters were searched in the enum member, so the events like
*#18*51*511#5#20*3*120##, 512#M, 513#M, 514#M, 52#Y#M and 72#N never reached
their callbacks. The arguments are the documented ones.
---
 pyown/items/energy/energy.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 77c1eea..b370018 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,7 +553,8 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        dim = DimensionEnergy(message.dimension.tag)
+        parameters = message.dimension.parameters
 
         tasks = []
         callbacks = cls._event_callbacks.get(dim, [])
@@ -561,22 +562,23 @@ class EnergyManagement(BaseItem):
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
+            day = int(parameters[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
@@ -607,8 +609,8 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.ENERGY_UNIT_PER_MONTH:
-            month = int(dim.parameters[1])
-            year = int(dim.parameters[0])
+            month = int(parameters[1])
+            year = int(parameters[0])
             energy = float(message.values[0].string)
             args = (item, month, year, energy)
         elif dim.tag == DimensionEnergy.PARTIAL_TOTALIZER_CURRENT_MONTH:
@@ -618,8 +620,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(parameters[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From 5f4590c5b87b35fe7e8d9172f7b099a458f94aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:17 +0000
Subject: [PATCH 12/34] fix: send the month before the day when requesting the
 daily totalizers

The documented command is *18*57#M#D*where##.
---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index b370018..58383c7 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -81,7 +81,7 @@ class EnergyManagement(BaseItem):
             month = datetime.now().month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
-- 
2.43.0


From edc01388b99efd113f9a7b5b3e0775d5ce438f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 13/34] fix: read the six values of the actuator info

The documented response is
*#18*where*71*disabled*forcing*threshold*protection*phase*advanced##.
---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 58383c7..1efe83f 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -302,12 +302,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=not bool(int(message.values[5].string) - 1),
         )
 
     async def get_totalizers(
-- 
2.43.0


From 824c116456fba72f8f72bf9d492ae8bacabae129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 14/34] fix: read the Stop&Go status mask from its last digit

The mask is documented as the binary digits b13...b1: the request used it as a
decimal number and the event read it from the wrong side.
---
 pyown/items/energy/energy.py  | 26 +++++++++++++-------------
 pyown/items/energy/stop_go.py |  7 ++++---
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 1efe83f..2459c36 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -584,19 +584,19 @@ class EnergyManagement(BaseItem):
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(int(message.values[0].string[-1])),
+                failure=bool(int(message.values[0].string[-2])),
+                block=bool(int(message.values[0].string[-3])),
+                open_cc=bool(int(message.values[0].string[-4])),
+                open_ground_fault=bool(int(message.values[0].string[-5])),
+                open_vmax=bool(int(message.values[0].string[-6])),
+                self_test_off=bool(int(message.values[0].string[-7])),
+                auto_reset_off=bool(int(message.values[0].string[-8])),
+                check_off=bool(int(message.values[0].string[-9])),
+                waiting_closing=bool(int(message.values[0].string[-10])),
+                first_24h_open=bool(int(message.values[0].string[-11])),
+                power_fail_down=bool(int(message.values[0].string[-12])),
+                power_fail_up=bool(int(message.values[0].string[-13])),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..d02421b 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -69,9 +69,10 @@ class StopGo(EnergyManagement):
                 raise InvalidMessage(msg.message)
 
             dim = msg.dimension
-            val = int(msg.values[0].string)
-
-            if val is None:
+            # the value is written in binary, either with one digit or with the 13 digits of the general status
+            try:
+                val = int(msg.values[0].string, 2)
+            except ValueError:
                 raise InvalidMessage(msg.message)
 
             match dim:
-- 
2.43.0


From 09eadeed485c063550ee1b04cff2e916e638e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 15/34] fix: pass the gateway strings as a single argument to
 the callbacks

A string is a Sequence, so the net mask, MAC address, model and versions were
passed to the callbacks one character per argument.
---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..d00a806 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -506,10 +506,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From cc18e3988f729b11a42ae6c1cd4bae3062c8de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 16/34] fix: encode the time zone of the gateway with three
 digits

The documented format is the sign followed by two digits for the hours, and
the hours of the negative offsets were wrong (GMT-2 was sent as 1022).
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index d00a806..a472b64 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = abs(tz) // datetime.timedelta(hours=1)
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From 7c03015ce376a7366e47ec843f8f9b41bd6e4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 17/34] fix: send the day of the week when setting the date and
 time

The documented values are H*M*S*T*W*D*M*Y.
---
 pyown/items/gateway/gateway.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index a472b64..dc6a82b 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -132,6 +132,14 @@ class Gateway(BaseItem):
         t = Value(f"{sign}{hours:02d}")
         return t
 
+    @staticmethod
+    def _date_to_own_weekday(bus_date: datetime.date) -> Value:
+        # calculate the day of the week, 00 is Sunday
+        if bus_date.weekday() == 6:
+            return Value("00")
+        else:
+            return Value(f"{bus_date.weekday() + 1:02d}")
+
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
         """Requests the time of the gateway and bus.
 
@@ -210,11 +218,7 @@ class Gateway(BaseItem):
         d = Value(f"{bus_date.day:02d}")
         m = Value(f"{bus_date.month:02d}")
         a = Value(f"{bus_date.year}")
-        # calculate the day of the week, 00 is Sunday
-        if bus_date.weekday() == 6:
-            w = Value("00")
-        else:
-            w = Value(f"{bus_date.weekday() + 1:02d}")
+        w = self._date_to_own_weekday(bus_date)
 
         await self.send_dimension_writing(WhatGateway.DATE, w, d, m, a)
 
@@ -400,7 +404,9 @@ class Gateway(BaseItem):
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        w = self._date_to_own_weekday(bus_time)
+
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From 7c98386349001bb31c7d4019657ce2a927542159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:56 +0000
Subject: [PATCH 18/34] fix: format the MAC address of the gateway in
 hexadecimal

The octets are transmitted as decimal values.
---
 pyown/items/gateway/gateway.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index dc6a82b..1a6f20d 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -280,8 +280,9 @@ class Gateway(BaseItem):
 
         oct1, oct2, oct3, oct4, oct5, oct6 = resp.values
 
-        mac = f"{oct1.string}:{oct2.string}:{oct3.string}:{oct4.string}:{oct5.string}:{oct6.string}"
-        return mac
+        # the octets are transmitted in decimal format
+        octets = (oct1, oct2, oct3, oct4, oct5, oct6)
+        return ":".join(f"{int(octet.string):02X}" for octet in octets)
 
     async def get_netinfo(self) -> ipaddress.IPv4Network:
         """Combines the net mask and the IP address to get the network info.
-- 
2.43.0


From c02502738d029d2140b5416f592f05ed21ab130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 19/34] fix: use the documented device type of the H4684
 gateway

---
 pyown/items/gateway/gateway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 1a6f20d..7caefc7 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -44,7 +44,7 @@ class GatewayModel(StrEnum):
     F452 = "6"
     F452V = "7"
     MHServer2 = "11"
-    H4684 = "12"
+    H4684 = "13"
     HL4684 = "23"
     MH202 = "200"
 
-- 
2.43.0


From c3ddb3ee12f6e472a0242626c778c06094b73b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:46 +0000
Subject: [PATCH 20/34] fix: dispatch the light events by their documented
 dimension

1 is the luminosity, 2 the temporization, 8 the working time and 14 the white
temperature.
---
 pyown/items/lighting/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..c4fc224 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -231,7 +231,7 @@ class BaseLight(BaseItem, ABC):
         tasks: list[Task] = []
 
         if isinstance(message, DimensionResponse):
-            if message.dimension.tag == "1":
+            if message.dimension.tag == "2":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
@@ -239,7 +239,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "1":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
@@ -254,7 +254,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
-- 
2.43.0


From 6731c1c6091b71a60f4fd2afc600794b882272de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:48 +0000
Subject: [PATCH 21/34] fix: use the documented dimensions of white temperature
 and working time

---
 pyown/items/lighting/base.py   | 2 +-
 pyown/items/lighting/dimmer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index c4fc224..df712a5 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -200,7 +200,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..6b9a0c1 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -163,7 +163,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From 6cf137036abe4ea1b4a4c74cf16ea5c3ee6980ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 22/34] fix: send the dimmer commands with parameters

WhatLight is an enum, so adding a parameter to its members raised ValueError.
The speed of up_percent and down_percent is now checked as documented and is
always sent as the second parameter.
---
 pyown/items/lighting/base.py   |  4 ++++
 pyown/items/lighting/dimmer.py | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index df712a5..263811d 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -113,6 +113,10 @@ class WhatLight(What, StrEnum):
 
     COMMAND_TRANSLATION = "1000"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class BaseLight(BaseItem, ABC):
     """Base class for all light items."""
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 6b9a0c1..82ebbcf 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,12 +87,17 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.UP_1_PERCENT
 
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
+            # the speed is always the second parameter
+            if value is None:
+                what = what.with_parameter(1)
             what = what.with_parameter(speed)
 
         await self.send_normal_message(what)
@@ -106,12 +111,17 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.DOWN_1_PERCENT
 
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
+            # the speed is always the second parameter
+            if value is None:
+                what = what.with_parameter(1)
             what = what.with_parameter(speed)
 
         await self.send_normal_message(what)
-- 
2.43.0


From c86d7b06e2013cffdb47b0c1d0942bf532545b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 23/34] fix: report a dimmed light as on to the status
 callbacks

The dimmers notify that they are on with their level (*1*5*12##) instead of 1.
---
 pyown/items/lighting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 263811d..68ae799 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -268,7 +268,7 @@ class BaseLight(BaseItem, ABC):
             tasks += cls._create_tasks(
                 cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),
                 item,
-                message.what == WhatLight.ON,
+                message.what.tag != WhatLight.OFF,
             )
         else:
             raise InvalidMessage(str(message))
-- 
2.43.0


From 97dd2e947db77ad8a0bee05d6489d9591c83582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:53 +0000
Subject: [PATCH 24/34] fix: dispatch the camera events to the Camera callbacks

The item type was missing, so Camera.on_status_change never had any effect.
---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..e2ac540 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -12,6 +13,7 @@ __all__ = ["ITEM_TYPES"]
 ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.LIGHTING: Light,
     Who.AUTOMATION: Automation,
+    Who.VIDEO_DOOR_ENTRY: Camera,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
 }
-- 
2.43.0


From d47447986035ac3118379052705c4aca4f3392c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 25/34] fix: describe every WHO

The name of the WHO missing from the map raised KeyError.
---
 pyown/tags/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/who.py b/pyown/tags/who.py
index 0c26fb0..7d7eefa 100644
--- a/pyown/tags/who.py
+++ b/pyown/tags/who.py
@@ -81,15 +81,20 @@ who_map: Final[dict[Who, str]] = {
     Who.LOAD_CONTROL: "Load control",
     Who.THERMOREGULATION: "Thermoregulation",
     Who.BURGLAR_ALARM: "Burglar alarm",
+    Who.DOOR_ENTRY_SYSTEM: "Door entry system",
     Who.VIDEO_DOOR_ENTRY: "Video door entry",
+    Who.AUXILIARY: "Auxiliary",
     Who.GATEWAY: "Gateway management",
+    Who.ACTUATORS_LOCKS: "Actuators and locks",
     Who.CEN_1: "CEN",
     Who.SOUND_DIFFUSION_1: "Sound diffusion 1",
     Who.MH200N_SCENE: "MH200N Scene",
     Who.ENERGY_MANAGEMENT: "Energy management",
     Who.SOUND_DIFFUSION_2: "Sound diffusion 2",
+    Who.LIGHTING_MANAGEMENT: "Lighting management",
     Who.CEN_2: "CEN plus / scenarios plus / dry contacts",
     Who.AUTOMATION_DIAGNOSTICS: "Automation diagnostics",
     Who.THERMOREGULATION_DIAGNOSTICS: "Thermoregulation diagnostics",
     Who.DEVICE_DIAGNOSTICS: "Device diagnostics",
+    Who.ENERGY_DIAGNOSTICS: "Energy diagnostics",
 }
-- 
2.43.0


From b00dc40bbbb0bfdb4d48d8512ea354eb50dd1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:15 +0000
Subject: [PATCH 26/34] fix: do not mix the responses of the commands sent at
 the same time

Two tasks using the same client could read the responses of each other, and
an iterator of responses not consumed until its end left the remaining ones to
the next command. Each command now keeps the client until its last response.
---
 pyown/client/base.py         | 10 ++++++
 pyown/items/base.py          | 62 ++++++++++++++++++++++--------------
 pyown/items/camera/camera.py |  6 ++--
 3 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 02acbb4..8239832 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -68,6 +68,16 @@ class BaseClient(ABC):
         self._on_connection_start: Future[Transport] = self._loop.create_future()
         self._on_connection_end: Future[Exception | None] = self._loop.create_future()
 
+        self._exchange_lock = asyncio.Lock()
+
+    @property
+    def exchange_lock(self) -> asyncio.Lock:
+        """The lock to hold while sending a command and reading its responses.
+
+        The responses do not indicate which command they answer, so only one command can be in progress.
+        """
+        return self._exchange_lock
+
     def is_cmd_session(self) -> bool:
         """Checks if the session is a command session.
 
diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2f820b2..2d56243 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -207,9 +207,10 @@ class BaseItem(ABC):
             ResponseError: If the server does not acknowledge the message.
         """
         msg = self.create_normal_message(what)
-        await self._send_message(msg)
+        async with self._client.exchange_lock:
+            await self._send_message(msg)
+            resp = await self._read_message()
 
-        resp = await self._read_message()
         self._check_ack(resp)
 
     async def send_status_request(self) -> AsyncIterator[NormalMessage]:
@@ -222,20 +223,26 @@ class BaseItem(ABC):
             The responses from the server.
         """
         msg = self.create_status_message()
-        await self._send_message(msg)
+        responses: list[NormalMessage] = []
+        async with self._client.exchange_lock:
+            await self._send_message(msg)
 
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
+            while True:
+                resp = await self._read_message()
+                self._check_nack(resp)
+
+                # when the server responds with an ACK message,
+                # it means that the server has finished sending the responses
+                if resp.type == MessageType.ACK:
+                    break
 
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
+                if not isinstance(resp, NormalMessage):
+                    raise ResponseError(f"Received {resp} instead of a normal message")
 
-            if not isinstance(resp, NormalMessage):
-                raise ResponseError(f"Received {resp} instead of a normal message")
+                responses.append(resp)
 
-            yield resp
+        for response in responses:
+            yield response
 
     async def send_dimension_request(
         self, dimension: Dimension | str
@@ -252,20 +259,26 @@ class BaseItem(ABC):
             dimension = Dimension(dimension)
 
         msg = self.create_dimension_request_message(dimension)
-        await self._send_message(msg)
+        responses: list[DimensionResponse] = []
+        async with self._client.exchange_lock:
+            await self._send_message(msg)
 
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
+            while True:
+                resp = await self._read_message()
+                self._check_nack(resp)
+
+                # when the server responds with an ACK message,
+                # it means that the server has finished sending the responses
+                if resp.type == MessageType.ACK:
+                    break
 
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
+                if not isinstance(resp, DimensionResponse):
+                    raise ResponseError(f"Received {resp} instead of a dimension response message")
 
-            if not isinstance(resp, DimensionResponse):
-                raise ResponseError(f"Received {resp} instead of a dimension response message")
+                responses.append(resp)
 
-            yield resp
+        for response in responses:
+            yield response
 
     async def send_dimension_writing(self, dimension: Dimension | str, *args: Value) -> None:
         """Sends a dimension writing message to the server and check the response.
@@ -281,9 +294,10 @@ class BaseItem(ABC):
             dimension = Dimension(dimension)
 
         msg = self.create_dimension_writing_message(dimension, *args)
-        await self._send_message(msg)
+        async with self._client.exchange_lock:
+            await self._send_message(msg)
+            resp = await self._read_message()
 
-        resp = await self._read_message()
         self._check_ack(resp)
 
     # TODO: Refactor this method
diff --git a/pyown/items/camera/camera.py b/pyown/items/camera/camera.py
index feb495d..43b1aab 100644
--- a/pyown/items/camera/camera.py
+++ b/pyown/items/camera/camera.py
@@ -154,8 +154,10 @@ class Camera(BaseItem):
             what: The WHAT command to send.
         """
         msg = GenericMessage([str(self._who), str(what)])
-        await self._send_message(msg)
-        resp = await self._read_message()
+        async with self._client.exchange_lock:
+            await self._send_message(msg)
+            resp = await self._read_message()
+
         self._check_ack(resp)
 
     async def free_resources(self):
-- 
2.43.0


From aa1be76fdbbcdf711ce70b53275c3f86ca830f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 27/34] fix: do not mix the dates of two clock readings at
 midnight

---
 pyown/items/energy/energy.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 2459c36..02639d3 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -75,10 +75,12 @@ class EnergyManagement(BaseItem):
         Raises:
             ResponseError: When the gateway does not acknowledge the command
         """
+        # read the clock only once, the date could change between two readings
+        now = datetime.now()
         if day is None:
-            day = datetime.now().day
+            day = now.day
         if month is None:
-            month = datetime.now().month
+            month = now.month
 
         await self.send_normal_message(
             WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
@@ -246,10 +248,12 @@ class EnergyManagement(BaseItem):
         Raises:
             ResponseError: When the gateway does not respond with the requested data
         """
+        # read the clock only once, the date could change between two readings
+        now = datetime.now()
         if month is None:
-            month = datetime.now().month
+            month = now.month
         if year is None:
-            year = datetime.now().year % 100
+            year = now.year % 100
 
         message = await self._single_dim_req(
             DimensionEnergy.ENERGY_UNIT_PER_MONTH.with_parameter(year).with_parameter(month)
-- 
2.43.0


From a168bf22b502198d5728a32b113694a700cf3835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:09 +0000
Subject: [PATCH 28/34] fix: allow to start a client again after its connection
 ended

---
 pyown/client/base.py   | 5 +++++
 pyown/client/client.py | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 8239832..fc6c760 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -96,6 +96,11 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        # The previous connection, if any, must not interfere with the new one
+        await self.close()
+        self._on_connection_start = self._loop.create_future()
+        self._on_connection_end = self._loop.create_future()
+
         try:
             self._transport, self._protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
diff --git a/pyown/client/client.py b/pyown/client/client.py
index 2984ce9..53b373a 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -111,8 +111,10 @@ class Client(BaseClient):
         if client is None:
             client = self
 
+        transport = self._transport
+
         # loop until the connection is dropped or closed
-        while self._transport is not None:
+        while self._transport is transport:
             # by putting timeout as None, it will wait indefinitely for a message
             reader = self._loop.create_task(self.read_message(timeout=None))
             try:
-- 
2.43.0


From e2c0a69f1fa977a71617caa585575c7a81402ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:29 +0000
Subject: [PATCH 29/34] fix: close the connection when the gateway does not
 accept the session

---
 pyown/client/base.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index fc6c760..8e57e54 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -118,7 +118,22 @@ class BaseClient(ABC):
 
         log.debug("Connection started")
 
-        # Handshake
+        try:
+            await self._handshake()
+        except BaseException:
+            # Nothing can be sent on a session that the gateway did not accept
+            await self.close()
+            raise
+
+        log.info("Client ready")
+
+    async def _handshake(self) -> None:
+        """Does the initial handshake with the gateway.
+
+        Raises:
+            TimeoutError: if the server does not respond
+            InvalidAuthentication: if the server does not accept the session
+        """
         # The first packet is from the server, and it's an ACK packet
         # The second packet is from the client and set the session type
         # Wait for the first packet
@@ -152,8 +167,6 @@ class BaseClient(ABC):
         else:
             raise InvalidAuthentication("Invalid authentication response")
 
-        log.info("Client ready")
-
     async def _authenticate_open(self, nonce: str) -> None:
         """Authenticates the client using the open authentication algorithm.
 
-- 
2.43.0


From ea18c57c1e77e05c46b488d06ad57bd75495463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:36 +0000
Subject: [PATCH 30/34] fix: read the remaining responses to a command after an
 unexpected one

---
 pyown/items/base.py          | 29 +++++++++++++++++++++++++++--
 pyown/items/camera/camera.py |  2 +-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2d56243..81908f2 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -122,6 +122,29 @@ class BaseItem(ABC):
         """
         return await self._client.read_message(timeout=timeout)
 
+    async def _read_ack(self) -> BaseMessage:
+        """Reads the response to a command.
+
+        If it's an unexpected message, the remaining responses are skipped.
+
+        Returns:
+            The first message received.
+        """
+        resp = await self._read_message()
+        if resp.type not in (MessageType.ACK, MessageType.NACK):
+            await self._skip_responses()
+        return resp
+
+    async def _skip_responses(self) -> None:
+        """Skips the remaining responses to a command, so they are not mistaken for those to the next one."""
+        try:
+            while True:
+                resp = await self._read_message()
+                if resp.type in (MessageType.ACK, MessageType.NACK):
+                    break
+        except TimeoutError:
+            pass
+
     @staticmethod
     def _check_ack(resp: BaseMessage) -> None:
         """Checks if the response is an ACK message.
@@ -209,7 +232,7 @@ class BaseItem(ABC):
         msg = self.create_normal_message(what)
         async with self._client.exchange_lock:
             await self._send_message(msg)
-            resp = await self._read_message()
+            resp = await self._read_ack()
 
         self._check_ack(resp)
 
@@ -237,6 +260,7 @@ class BaseItem(ABC):
                     break
 
                 if not isinstance(resp, NormalMessage):
+                    await self._skip_responses()
                     raise ResponseError(f"Received {resp} instead of a normal message")
 
                 responses.append(resp)
@@ -273,6 +297,7 @@ class BaseItem(ABC):
                     break
 
                 if not isinstance(resp, DimensionResponse):
+                    await self._skip_responses()
                     raise ResponseError(f"Received {resp} instead of a dimension response message")
 
                 responses.append(resp)
@@ -296,7 +321,7 @@ class BaseItem(ABC):
         msg = self.create_dimension_writing_message(dimension, *args)
         async with self._client.exchange_lock:
             await self._send_message(msg)
-            resp = await self._read_message()
+            resp = await self._read_ack()
 
         self._check_ack(resp)
 
diff --git a/pyown/items/camera/camera.py b/pyown/items/camera/camera.py
index 43b1aab..231d3fe 100644
--- a/pyown/items/camera/camera.py
+++ b/pyown/items/camera/camera.py
@@ -156,7 +156,7 @@ class Camera(BaseItem):
         msg = GenericMessage([str(self._who), str(what)])
         async with self._client.exchange_lock:
             await self._send_message(msg)
-            resp = await self._read_message()
+            resp = await self._read_ack()
 
         self._check_ack(resp)
 
-- 
2.43.0


From 6ca342855759f8fa002ecf63a05a0941cec47696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:48 +0000
Subject: [PATCH 31/34] fix: do not mistake the late responses to an
 interrupted command for those to the next one

---
 pyown/client/base.py       | 9 +++++++++
 pyown/items/base.py        | 2 ++
 pyown/protocol/protocol.py | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 8e57e54..e314458 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -290,6 +290,15 @@ class BaseClient(ABC):
 
         return message
 
+    def discard_messages(self) -> None:
+        """Discards the messages received and not yet read.
+
+        Those could be the late responses to a command that was interrupted.
+        On an event session, the messages are the events, and nothing is discarded.
+        """
+        if self._protocol is not None and self.is_cmd_session():
+            self._protocol.discard_messages()
+
     async def close(self) -> None:
         """Close the client."""
         if self._transport is not None:
diff --git a/pyown/items/base.py b/pyown/items/base.py
index 81908f2..e5a1826 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -109,6 +109,8 @@ class BaseItem(ABC):
         Returns:
             None
         """
+        # What was received before can't be a response to this message
+        self._client.discard_messages()
         return await self._client.send_message(message)
 
     async def _read_message(self, timeout: int | None = 5) -> BaseMessage:
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 05de8c1..3aacf86 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -154,3 +154,8 @@ class OWNProtocol(Protocol):
         """
         messages = await self._messages_queue.get()
         return messages
+
+    def discard_messages(self) -> None:
+        """Discards the messages received and not yet read."""
+        while not self._messages_queue.empty():
+            self._messages_queue.get_nowait()
-- 
2.43.0


From ff23160d37465b35148cc2cda4bdea10701510d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:57 +0000
Subject: [PATCH 32/34] fix: nobody else can use the connection during the
 handshake

---
 pyown/client/base.py   | 18 ++++++++++++++++--
 pyown/client/client.py |  3 +++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index e314458..fe9cffb 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -1,7 +1,7 @@
 import asyncio
 import logging
 from abc import ABC, abstractmethod
-from asyncio import AbstractEventLoop, Future, Transport
+from asyncio import AbstractEventLoop, Future, Task, Transport
 from typing import Any, Optional
 
 from ..auth import AuthAlgorithm
@@ -70,6 +70,9 @@ class BaseClient(ABC):
 
         self._exchange_lock = asyncio.Lock()
 
+        # The task that is doing the handshake
+        self._starting: Optional[Task] = None
+
     @property
     def exchange_lock(self) -> asyncio.Lock:
         """The lock to hold while sending a command and reading its responses.
@@ -100,6 +103,7 @@ class BaseClient(ABC):
         await self.close()
         self._on_connection_start = self._loop.create_future()
         self._on_connection_end = self._loop.create_future()
+        self._starting = asyncio.current_task()
 
         try:
             self._transport, self._protocol = await self._loop.create_connection(
@@ -125,8 +129,13 @@ class BaseClient(ABC):
             await self.close()
             raise
 
+        self._starting = None
         log.info("Client ready")
 
+    def _is_starting(self) -> bool:
+        """Checks if another task is doing the handshake: until it ends, nobody else can use the connection."""
+        return self._starting is not None and self._starting is not asyncio.current_task()
+
     async def _handshake(self) -> None:
         """Does the initial handshake with the gateway.
 
@@ -269,6 +278,8 @@ class BaseClient(ABC):
             raise InvalidSession("Cannot send messages in an event session")
         if self._protocol is None:
             raise InvalidSession("Client not started")
+        if self._is_starting():
+            raise InvalidSession("Client not started yet")
 
         await self._protocol.send_message(message)
 
@@ -284,6 +295,8 @@ class BaseClient(ABC):
         """
         if self._protocol is None:
             raise InvalidSession("Client not started")
+        if self._is_starting():
+            raise InvalidSession("Client not started yet")
 
         async with asyncio.timeout(timeout):
             message = await self._protocol.receive_messages()
@@ -296,7 +309,7 @@ class BaseClient(ABC):
         Those could be the late responses to a command that was interrupted.
         On an event session, the messages are the events, and nothing is discarded.
         """
-        if self._protocol is not None and self.is_cmd_session():
+        if self._protocol is not None and self.is_cmd_session() and not self._is_starting():
             self._protocol.discard_messages()
 
     async def close(self) -> None:
@@ -306,6 +319,7 @@ class BaseClient(ABC):
 
         self._protocol = None
         self._transport = None
+        self._starting = None
 
     @abstractmethod
     async def loop(self):
diff --git a/pyown/client/client.py b/pyown/client/client.py
index 53b373a..90bde44 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -108,6 +108,9 @@ class Client(BaseClient):
         if self._transport is None:
             raise InvalidSession("Client is not connected")
 
+        if self._is_starting():
+            raise InvalidSession("Client is not connected yet")
+
         if client is None:
             client = self
 
-- 
2.43.0


From ac327013de0754fc669f0d6053e6bb7d90e00a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:35 +0000
Subject: [PATCH 33/34] fix: a password that is not numeric is refused by the
 open authentication as any wrong one

---
 pyown/client/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index fe9cffb..e7e9253 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -181,8 +181,14 @@ class BaseClient(ABC):
 
         Args:
             nonce (str): The nonce sent by the server
+
+        Raises:
+            InvalidAuthentication: if the password is not numeric, or it's wrong
         """
-        enc = own_calc_pass(self._password, nonce)
+        try:
+            enc = own_calc_pass(self._password, nonce)
+        except ValueError:
+            raise InvalidAuthentication("The open authentication requires a numeric password")
 
         await self.send_message(GenericMessage(["#" + enc]), force=True)
         resp = await self.read_message()
-- 
2.43.0


From 9d98b732f2d182ef7e3e06dd731eb3945cd22760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:33 +0000
Subject: [PATCH 34/34] fix: a start() in progress when the client is closed
 fails, and does not affect a later one

---
 pyown/client/base.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index e7e9253..97713ee 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -101,15 +101,15 @@ class BaseClient(ABC):
         """
         # The previous connection, if any, must not interfere with the new one
         await self.close()
-        self._on_connection_start = self._loop.create_future()
-        self._on_connection_end = self._loop.create_future()
+        on_connection_start = self._on_connection_start = self._loop.create_future()
+        on_connection_end = self._on_connection_end = self._loop.create_future()
         self._starting = asyncio.current_task()
 
         try:
-            self._transport, self._protocol = await self._loop.create_connection(
+            transport, protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
-                    on_connection_start=self._on_connection_start,
-                    on_connection_end=self._on_connection_end,
+                    on_connection_start=on_connection_start,
+                    on_connection_end=on_connection_end,
                 ),
                 self._host,
                 self._port,
@@ -117,16 +117,26 @@ class BaseClient(ABC):
         except OSError:
             raise TimeoutError("Could not connect to the server")
 
+        if self._starting is not asyncio.current_task():
+            transport.close()
+            raise InvalidSession("Client closed while it was starting")
+
+        self._transport, self._protocol = transport, protocol
+
         # Wait for the connection to start
-        await self._on_connection_start
+        await on_connection_start
 
         log.debug("Connection started")
 
         try:
             await self._handshake()
+            if self._starting is not asyncio.current_task():
+                raise InvalidSession("Client closed while it was starting")
         except BaseException:
             # Nothing can be sent on a session that the gateway did not accept
-            await self.close()
+            # If the client was closed in the meantime, the current connection, if any, is of another start
+            if self._starting is asyncio.current_task():
+                await self.close()
             raise
 
         self._starting = None
-- 
2.43.0

