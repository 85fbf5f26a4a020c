From 5d11450e0232eeced7447120be74573e56b168f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 01/31] fix: decoding a group addressed frame that is not
 T_Data_Group returns an empty list instead of None

---
 knx_stack/decode/layer/network/n_data_group/con.py | 4 +++-
 knx_stack/decode/layer/network/n_data_group/ind.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/network/n_data_group/con.py b/knx_stack/decode/layer/network/n_data_group/con.py
index db7cd2c..d5a0b69 100644
--- a/knx_stack/decode/layer/network/n_data_group/con.py
+++ b/knx_stack/decode/layer/network/n_data_group/con.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import con
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return con.decode(state, msg)
+        result = con.decode(state, msg)
+    return result
diff --git a/knx_stack/decode/layer/network/n_data_group/ind.py b/knx_stack/decode/layer/network/n_data_group/ind.py
index 95467a0..089dba8 100644
--- a/knx_stack/decode/layer/network/n_data_group/ind.py
+++ b/knx_stack/decode/layer/network/n_data_group/ind.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import ind
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return ind.decode(state, msg)
+        result = ind.decode(state, msg)
+    return result
-- 
2.43.0


From 9e524e9a1b7d67c9ed19fbd2bf534fd51f9cb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 02/31] fix: decode_msg of a tunnelling ack returns the list of
 messages, not a (list, state) tuple

---
 knx_stack/decode/knxnet_ip/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/header.py b/knx_stack/decode/knxnet_ip/header.py
index 1bba136..d18fe80 100644
--- a/knx_stack/decode/knxnet_ip/header.py
+++ b/knx_stack/decode/knxnet_ip/header.py
@@ -37,7 +37,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         elif service.value == Services.TUNNELING_REQUEST:
             result = tunneling.req.decode(state, body)
         elif service.value == Services.TUNNELING_ACK:
-            result = tunneling.ack.decode(state, body)
+            (result, _) = tunneling.ack.decode(state, body)
         else:
             logging.getLogger(__name__).error(
                 "Unknown knxnet_ip service value %d" % service.value
-- 
2.43.0


From 6665625b51e82cb704ef5c095a479b398f2594b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 03/31] fix: a repeated tunnelling request is recognised across
 the sequence counter wrap around

---
 knx_stack/decode/knxnet_ip/tunneling/req.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/req.py b/knx_stack/decode/knxnet_ip/tunneling/req.py
index 14c48ee..93c8ea9 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/req.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/req.py
@@ -34,7 +34,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
         if result_tmp:
             result.extend(result_tmp)
     else:
-        if state.sequence_counter_remote == (sequence_counter + 1):
+        if state.sequence_counter_remote == (sequence_counter + 1) % 256:
             result.append(
                 Msg(sequence_counter=sequence_counter, status=ErrorCodes.E_NO_ERROR)
             )
-- 
2.43.0


From 05e8c5fa66d7226d2f97f29ff22f057dbdf0a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 04/31] fix: T_Connect and T_Disconnect frames are no longer
 classified as T_Data_Connected

---
 knx_stack/definition/layer/link/ldata.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index f236f25..fd441bb 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -257,12 +257,6 @@ class L_Data(LittleEndianStructure):
             and self._tpci.bits.numbered == 1
         ):
             pdu = NSDU.T_Data_Connected_PDU
-        elif (
-            self._cntrl2.bits.address_type == AddressType.individual
-            and self._tpci.bits.control_flag == 1
-            and self._tpci.bits.numbered == 0
-        ):
-            pdu = NSDU.T_Data_Connected_PDU
         elif (
             self._cntrl2.bits.address_type == AddressType.individual
             and self._tpci.bits.control_flag == 1
@@ -319,10 +313,6 @@ class L_Data(LittleEndianStructure):
             self._tpci.bits.control_flag = 0
             self._tpci.bits.numbered = 1
 
-        elif pdu == NSDU.T_Data_Connected_PDU:
-            self._tpci.bits.control_flag = 1
-            self._tpci.bits.numbered = 0
-
         elif pdu == NSDU.T_Connect_PDU:
             self._tpci.bits.control_flag = 1
             self._tpci.bits.numbered = 0
-- 
2.43.0


From c75bf868daea418f06fa282922163f81a245bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 05/31] fix: L_Data.ind encoding follows the medium of the
 state instead of always producing a USB report

---
 knx_stack/encode/cemi/ldata/ind.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/cemi/ldata/ind.py b/knx_stack/encode/cemi/ldata/ind.py
index 719c12f..d2fa917 100644
--- a/knx_stack/encode/cemi/ldata/ind.py
+++ b/knx_stack/encode/cemi/ldata/ind.py
@@ -1,5 +1,6 @@
-from knx_stack import Octect, Msg
+from knx_stack import Medium, Octect, Msg
 from knx_stack.definition.cemi import MessageCode
+from knx_stack.encode.knxnet_ip import tunneling
 from knx_stack.encode.usb_hid import emi_id
 
 
@@ -7,5 +8,10 @@ def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     message_code = Octect(value=MessageCode.L_Data_ind)
     additional_info_length = Octect(value=0)
     new_msg = Msg([message_code, additional_info_length] + msg)
-    final_msg = emi_id.encode(state, new_msg)
+    if state.medium == Medium.usb_hid:
+        final_msg = emi_id.encode(state, new_msg)
+    elif state.medium == Medium.knxnet_ip:
+        final_msg = tunneling.req.encode(state, new_msg)
+    else:
+        final_msg = new_msg
     return final_msg
-- 
2.43.0


From 4af8555c2946f348e4ccdfcfebad88f6311c5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 06/31] fix: DPT_Control_Dimming is a four bit type, it travels
 inside the APCI octet

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 431c7c1..45ad6da 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -356,6 +356,8 @@ class DPT_Control_Dimming(Union, DPT):
     7
     """
 
+    length = DPT.Length.LESS_THAN_A_BYTE
+
     class Direction(IntEnum):
         down = (0x00,)
         up = (0x01,)
-- 
2.43.0


From bb200ac207c9fef166a4777f49096ae38c8f2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 07/31] fix: an address table never holds a group address twice
 nor more than max_size addresses

---
 knx_stack/definition/layer/network/address_table.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index c6454e4..ca64205 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -87,8 +87,9 @@ class AddressTable(object):
         """
         self._max_size = max_size
         self._individual_address = ia
-        self._group_addresses = list(addresses)
-        self._group_addresses.sort(key=lambda group_address: group_address.free_style)
+        self._group_addresses = []
+        for address in addresses:
+            self.add(address)
 
     @property
     def individual_address(self) -> "knx_stack.Address":
@@ -132,7 +133,7 @@ class AddressTable(object):
         :param address: a new *group address* to be inserted
         :return: a new AddressTable instance
         """
-        if address not in self._group_addresses or address != self._individual_address:
+        if address not in self._group_addresses:
             if len(self._group_addresses) >= self.max_size:
                 raise AddressTableException(
                     "Max entries %d, already written inside address table"
-- 
2.43.0


From a77ddf9e3c2b1aaa7dfee26f8a28916c025c692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 08/31] fix: the association table stays consistent with the
 address table whatever the history of changes

---
 .../layer/transport/association_table.py      | 41 ++++++++-----------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f032882..f1d2890 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -121,7 +121,6 @@ class AssociationTable(object):
     ):
         self._address_table = address_table
         self._asap_addresses = dict()
-        self._tsap_asaps = dict()
         self.associate(
             ASAP(0, "individual address"), [self._address_table.individual_address]
         )
@@ -145,13 +144,19 @@ class AssociationTable(object):
         return tsaps
 
     def get_asaps(self, tsap: int) -> Iterable["knx_stack.ASAP"]:
-        return self._tsap_asaps[tsap]
+        if tsap is None:
+            return []
+        address = self._address_table.get_address(tsap)
+        return [
+            asap
+            for asap, addresses in self._asap_addresses.items()
+            if address in addresses
+        ]
 
     def get_asaps_from_address(
         self, address: "knx_stack.GroupAddress"
     ) -> Iterable["knx_stack.ASAP"]:
-        tsap = self._address_table.get_tsap(address)
-        return self._tsap_asaps[tsap]
+        return self.get_asaps(self._address_table.get_tsap(address))
 
     @property
     def asaps(self):
@@ -170,41 +175,29 @@ class AssociationTable(object):
             addresses.append(self._address_table.get_address(tsap))
         return addresses
 
-    def _rebuild_tsap_asaps(self):
-        self._tsap_asaps = dict()
-        for asap_, addresses in self._asap_addresses.items():
-            for address_ in addresses:
-                tsap = self._address_table.get_tsap(address_)
-                if tsap not in self._tsap_asaps:
-                    self._tsap_asaps[tsap] = list()
-                self._tsap_asaps[tsap].append(asap_)
-
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
+        if asap not in self._asap_addresses:
+            self._asap_addresses[asap] = list()
         for address in addresses:
             if (
                 address not in self._address_table.addresses
                 and address is not self.individual_address
             ):
                 self._address_table.add(address)
-
-        if asap not in self._asap_addresses:
-            self._asap_addresses[asap] = list()
-        for address in addresses:
-            self._asap_addresses[asap].append(address)
-
-        self._rebuild_tsap_asaps()
+            if address not in self._asap_addresses[asap]:
+                self._asap_addresses[asap].append(address)
 
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
         for address in addresses:
-            if address != self.individual_address:
-                self._address_table.remove(address)
             self._asap_addresses[asap].remove(address)
-
-        self._rebuild_tsap_asaps()
+            if address != self.individual_address and not any(
+                address in others for others in self._asap_addresses.values()
+            ):
+                self._address_table.remove(address)
 
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
-- 
2.43.0


From 290ed50fbd53051603cc934681208b6da0389c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 09/31] fix: the ack of a repeated tunnelling request carries
 the sequence counter of that request

---
 knx_stack/encode/knxnet_ip/tunneling/ack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/knxnet_ip/tunneling/ack.py b/knx_stack/encode/knxnet_ip/tunneling/ack.py
index c509af6..2a57db7 100644
--- a/knx_stack/encode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/encode/knxnet_ip/tunneling/ack.py
@@ -21,12 +21,15 @@ def encode(
     new_msg += NetMsg(
         Short(value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10).octects
     )
+    sequence_counter = state.sequence_counter_remote
+    if (msg.sequence_counter + 1) % 256 == state.sequence_counter_remote:
+        sequence_counter = msg.sequence_counter  # a repeated request
     new_msg += connection_header.create(
-        state, status=msg.status, sequence_counter=state.sequence_counter_remote
+        state, status=msg.status, sequence_counter=sequence_counter
     )
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.encode.ack with sequence counter={}".format(
-            state.sequence_counter_remote
+            sequence_counter
         )
     )
     if msg.sequence_counter == state.sequence_counter_remote:
-- 
2.43.0


From f0bc523fbb7d9be6ddc9d1dd69f5951be0787483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 10/31] fix: the individual address of a search response is an
 Address

---
 knx_stack/decode/knxnet_ip/core/search/res.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/core/search/res.py b/knx_stack/decode/knxnet_ip/core/search/res.py
index 1443275..e10e5d4 100644
--- a/knx_stack/decode/knxnet_ip/core/search/res.py
+++ b/knx_stack/decode/knxnet_ip/core/search/res.py
@@ -1,6 +1,7 @@
 from typing import Iterable
 import struct
 import socket
+from knx_stack.address import Address
 from knx_stack.definition.knxnet_ip.core.search.res import Msg
 
 
@@ -28,7 +29,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
         Msg(
             ip=socket.inet_ntoa(struct.pack("!I", ip.value)),
             port=port.value,
-            individual_address=individual_address,
+            individual_address=Address(individual_address.value),
         )
     )
     return result
-- 
2.43.0


From 936612b2f3703f33858317e32613e7361f393112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 11/31] fix: a refused connect response (no HPAI, tunnelling
 layer error) is decoded instead of raising

---
 knx_stack/decode/knxnet_ip/core/connect/res.py     | 4 +++-
 knx_stack/definition/knxnet_ip/core/connect/res.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/core/connect/res.py b/knx_stack/decode/knxnet_ip/core/connect/res.py
index 4b423ed..1272331 100644
--- a/knx_stack/decode/knxnet_ip/core/connect/res.py
+++ b/knx_stack/decode/knxnet_ip/core/connect/res.py
@@ -17,11 +17,13 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (size, body) = msg.short()
     (communication_channel_id, body) = body.octect()
     (status, body) = body.octect()
-    (ip, port, body) = body.HPAI()
     if status.value == Status.E_NO_ERROR:
+        (ip, port, body) = body.HPAI()
         (tunnel_connection, individual_address, body) = body.CRD()
         state.communication_channel_id = communication_channel_id.value
     else:
+        # a refused connection may come without HPAI
+        (ip, port, body) = body.HPAI() if len(body) >= 8 else (None, None, body)
         individual_address = None
     result.append(
         Msg(
diff --git a/knx_stack/definition/knxnet_ip/core/connect/res.py b/knx_stack/definition/knxnet_ip/core/connect/res.py
index 908371b..08047a4 100644
--- a/knx_stack/definition/knxnet_ip/core/connect/res.py
+++ b/knx_stack/definition/knxnet_ip/core/connect/res.py
@@ -7,6 +7,7 @@ class Status(IntEnum):
     E_CONNECTION_TYPE = 0x22  # connection type not supported
     E_CONNECTION_OPTION = 0x23  # connection option not supported
     E_NO_MORE_CONNECTIONS = 0x24
+    E_TUNNELING_LAYER = 0x29  # requested tunnelling layer not supported
 
 
 class Msg(NamedTuple):
-- 
2.43.0


From d6e38c50e69554edf63eae09a0a36c78f9d624e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 12/31] fix: the tunnelling error codes are those of the
 KNXnet/IP specification

---
 knx_stack/definition/knxnet_ip/definitions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knx_stack/definition/knxnet_ip/definitions.py b/knx_stack/definition/knxnet_ip/definitions.py
index f61f2b4..5b314ca 100644
--- a/knx_stack/definition/knxnet_ip/definitions.py
+++ b/knx_stack/definition/knxnet_ip/definitions.py
@@ -47,7 +47,8 @@ class ErrorCodes(IntEnum):
     E_NO_ERROR = 0x00
     E_HOST_PROTOCOL_TYPE = 0x01
     E_VERSION_NOT_SUPPORTED = 0x02
-    E_SEQUENCE_NUMBER = 0x03
+    E_SEQUENCE_NUMBER = 0x04
+    E_CONNECTION_ID = 0x21
 
 
 class ConnectResponseStatusCode(IntEnum):
-- 
2.43.0


From 30f89d76e98a10e24537d80b423a5dbb7bb2162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 13/31] fix: a datapoint value without a textual description
 does not make decoding fail

---
 knx_stack/decode/layer/transport/t_data_group/con.py      | 6 ++----
 knx_stack/decode/layer/transport/t_data_group/ind.py      | 6 ++----
 knx_stack/decode/layer/transport/t_data_individual/con.py | 6 ++----
 knx_stack/decode/layer/transport/t_data_individual/ind.py | 6 ++----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_group/con.py b/knx_stack/decode/layer/transport/t_data_group/con.py
index 70a7132..fdbd1dd 100644
--- a/knx_stack/decode/layer/transport/t_data_group/con.py
+++ b/knx_stack/decode/layer/transport/t_data_group/con.py
@@ -16,11 +16,9 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
             result = application.a_group_value_write.con.decode(state, msg)
         s = "received msg {} {}".format(msg, state.ldata)
         try:
-            logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
-            )
+            logger.debug("%s %s asaps %s", s, result[0].dpt, [m.asap for m in result])
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
diff --git a/knx_stack/decode/layer/transport/t_data_group/ind.py b/knx_stack/decode/layer/transport/t_data_group/ind.py
index 951ad1b..a9c686f 100644
--- a/knx_stack/decode/layer/transport/t_data_group/ind.py
+++ b/knx_stack/decode/layer/transport/t_data_group/ind.py
@@ -16,11 +16,9 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
             result = application.a_group_value_write.ind.decode(state, msg)
         s = "received msg {} {}".format(msg, state.ldata)
         try:
-            logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
-            )
+            logger.debug("%s %s asaps %s", s, result[0].dpt, [m.asap for m in result])
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index 0cdb11c..772dbea 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -16,11 +16,9 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
             result = application.a_property_value_write.con.decode(state, msg)
         s = "received msg {} {}".format(msg, state.ldata)
         try:
-            logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
-            )
+            logger.debug("%s %s asaps %s", s, result[0].dpt, [m.asap for m in result])
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
diff --git a/knx_stack/decode/layer/transport/t_data_individual/ind.py b/knx_stack/decode/layer/transport/t_data_individual/ind.py
index 781b3ab..7b0580c 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/ind.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/ind.py
@@ -15,11 +15,9 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
             result = application.a_property_value_write.ind.decode(state, msg)
         s = "received msg {} {}".format(msg, state.ldata)
         try:
-            logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
-            )
+            logger.debug("%s %s asaps %s", s, result[0].dpt, [m.asap for m in result])
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
-- 
2.43.0


From 9a5e45d96730747cb51e93319a09162bf8cf25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 14/31] fix: encoding for an asap without group addresses
 raises instead of building a malformed frame

---
 .../encode/layer/transport/t_data_group/encode.py   | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/knx_stack/encode/layer/transport/t_data_group/encode.py b/knx_stack/encode/layer/transport/t_data_group/encode.py
index 060e610..0d20d6e 100644
--- a/knx_stack/encode/layer/transport/t_data_group/encode.py
+++ b/knx_stack/encode/layer/transport/t_data_group/encode.py
@@ -3,10 +3,9 @@ from knx_stack.definition import layer
 
 
 def tl_encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
-    new_msg = msg
-    if state.get_tsaps():
-        ldata = layer.L_Data()
-        ldata.nsdu = layer.NSDU.T_Data_Group_PDU
-        ldata.apci = state.apci
-        new_msg = Msg([Octect(value=ldata.tpci)] + msg)
-    return new_msg
+    if not state.get_tsaps():
+        raise ValueError("no group address associated to asap %s" % state.asap)
+    ldata = layer.L_Data()
+    ldata.nsdu = layer.NSDU.T_Data_Group_PDU
+    ldata.apci = state.apci
+    return Msg([Octect(value=ldata.tpci)] + msg)
-- 
2.43.0


From 30db0fc053da5a73e8bb17b5783a79291355d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 15/31] fix: individual confirmations are matched on the
 individual address, not on the group address table

---
 knx_stack/decode/layer/transport/t_data_individual/con.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index 772dbea..1cbd674 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -5,9 +5,8 @@ from knx_stack.decode.layer import application
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     logger = logging.getLogger(__name__)
-    tsap = state.get_tsap()
     result = []
-    if tsap == 0:
+    if state.ldata.destination == state.individual_address.free_style:
         if state.ldata.apci == 0x3D5:
             result = application.a_property_value_read.con.decode(state, msg)
         elif state.ldata.apci == 0x3D6:
-- 
2.43.0


From 8c84b35b4b7baa3342955fca62e485921aff6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 16/31] fix: get_free_asap_value never returns a value already
 in use

---
 .../definition/layer/transport/association_table.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f1d2890..63d25a9 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -163,11 +163,11 @@ class AssociationTable(object):
         return self._asap_addresses.keys()
 
     def get_free_asap_value(self):
-        asaps = self._asap_addresses.keys()
-        for e, asap in enumerate(asaps):
-            if e != asap.value:
-                return e
-        return len(asaps)
+        values = set(asap.value for asap in self._asap_addresses)
+        free = 0
+        while free in values:
+            free += 1
+        return free
 
     def get_addresses(self, tsaps: Iterable[int]):
         addresses = list()
-- 
2.43.0


From c449559b9501c84a4219e05239874d35a6afc9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 17/31] fix: a tiny negative DPT_Float_16 number is encoded as
 zero, not as -20.48

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 45ad6da..e8da496 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -686,6 +686,8 @@ class DPT_Float_16(Union):
             exp += 1
         if exp > max_exp_value:
             raise Exception("DPT_Float_16 number not representable")
+        if mantissa == 0:
+            sign = 1
 
         self.bits.exponent = exp
         if sign < 0:
-- 
2.43.0


From 355cf4367dec62aa234b7e078908d4eb74ef7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 18/31] fix: DPTInfoClimaReport gives access to all of its
 fields

---
 knx_stack/datapointtypes.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index e8da496..6b8ecb6 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -580,6 +580,38 @@ class DPTInfoClimaReport(Union, DPT):
     def setpoint(self, value):
         self.bits.setpoint = value
 
+    @property
+    def centralizzato(self):
+        return self.bits.centralizzato
+
+    @centralizzato.setter
+    def centralizzato(self, value):
+        self.bits.centralizzato = value
+
+    @property
+    def terziario(self):
+        return self.bits.terziario
+
+    @terziario.setter
+    def terziario(self, value):
+        self.bits.terziario = value
+
+    @property
+    def stato_rele(self):
+        return self.bits.stato_rele
+
+    @stato_rele.setter
+    def stato_rele(self, value):
+        self.bits.stato_rele = value
+
+    @property
+    def temporizzazione(self):
+        return self.bits.temporizzazione
+
+    @temporizzazione.setter
+    def temporizzazione(self, value):
+        self.bits.temporizzazione = value
+
     @property
     def temperatura(self):
         return ((self.bits.temperatura_msb << 8) + self.bits.temperatura_lsb) / 10
-- 
2.43.0


From 7b5ad12809df00de76a88c4a4cbc0e6ccec072e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 19/31] fix: the tunnelling client is connected only by a
 successful connect response, which resets both counters

---
 knx_stack/client/knxnet_ip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index 439434b..d7506ed 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -115,8 +115,12 @@ class Tunneling(asyncio.DatagramProtocol):
             self._state, knx_stack.knxnet_ip.Msg.make_from_str(data.hex())
         )
         for res in responses:
-            if isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg):
+            if (
+                isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg)
+                and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
+            ):
                 self._state.sequence_counter_remote = 0
+                self._state.sequence_counter_local = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
                     port_control_endpoint=self._local_port,
-- 
2.43.0


From be47895565d3a233453b7533b74005f39540f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 20/31] fix: the client coroutines run when their modules are
 imported, not only as scripts

---
 knx_stack/client/knxnet_ip.py           | 1 +
 knx_stack/client/knxnet_ip_discovery.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index d7506ed..17e1500 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -157,6 +157,7 @@ async def start_tunneling(
     state: knx_stack.knxnet_ip.State,
     msgs: Iterable[NamedTuple],
 ):
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Tunneling(
             local_addr, local_port, remote_addr, remote_port, state, msgs
diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 6def8fb..022591b 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -144,6 +144,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
     sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Request(local_addr, local_port),
         sock=sock,
@@ -152,6 +153,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
 
 
 async def listen_discovery_responses(local_addr: str, local_port: int):
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Listen(),
         local_addr=(local_addr, local_port),
-- 
2.43.0


From 9f0679e183e5dc65260f1c8c7ad0dde4aea8d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 21/31] fix: the discovery script listens on the address given
 on its command line

---
 knx_stack/client/knxnet_ip_discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 022591b..167fce1 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -171,12 +171,12 @@ if __name__ == "__main__":
 
     loop = asyncio.get_event_loop()
 
-    if len(sys.argv):
+    if len(sys.argv) > 1:
         transport1, _ = loop.run_until_complete(
-            loop.create_task(listen_discovery_responses(sys.argv[0], 5544))
+            loop.create_task(listen_discovery_responses(sys.argv[1], 5544))
         )
         transport2, _ = loop.run_until_complete(
-            loop.create_task(send_discovery_request(sys.argv[0], 5544))
+            loop.create_task(send_discovery_request(sys.argv[1], 5544))
         )
 
     try:
-- 
2.43.0


From ab344bdc8b194514efa7693a7620a694f80be2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 22/31] fix: the daemon does not read outside of the client
 line buffer

---
 daemon/usbhid.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 303f34a..562ed32 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -129,7 +129,7 @@ void init_sockaddr (struct sockaddr_in *name,
 
 int read_from_client(int filedes, unsigned char *packet) {
 	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 1];
+	char buffer[KNXHIDPACKETLEN * 2 + 2];
 
 	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
 	if (nbytes < 0) {
@@ -140,8 +140,10 @@ int read_from_client(int filedes, unsigned char *packet) {
 	else {
 		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
 			nbytes--;
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
+		if (nbytes > 0
+				&& (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
 			nbytes--;
+		buffer[nbytes] = '\0';
 		if ((nbytes % 2) != 0) {
 			return 0;
 		}
-- 
2.43.0


From 119f7205f0b95c0bb957237b9d2f7ef636fbbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 23/31] fix: the daemon never forwards a stale or partial
 packet for a malformed client line

---
 daemon/usbhid.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 562ed32..c8b15b9 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
@@ -147,7 +148,12 @@ int read_from_client(int filedes, unsigned char *packet) {
 		if ((nbytes % 2) != 0) {
 			return 0;
 		}
+		memset(packet, 0, KNXHIDPACKETLEN);
 		for (i = 0; i < nbytes / 2; i++) {
+			if (!isxdigit((unsigned char) buffer[i * 2])
+					|| !isxdigit((unsigned char) buffer[i * 2 + 1])) {
+				return 0;
+			}
 			if (sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
 				return 0;
 			}
@@ -265,9 +271,10 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					if (read_from_client(i, packet) >= 0) {
+					int l = read_from_client(i, packet);
+					if (l > 0) {
 						write_to_knx_cemi(fd_cemi, packet);
-					} else {
+					} else if (l < 0) {
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
 							if (client_fds[j] == i) {
-- 
2.43.0


From 3360d6bb8e1568ceb727044e37d4b27929c973ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 24/31] fix: the daemon serves only the clients it has room for
 and reports their address correctly

---
 daemon/usbhid.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index c8b15b9..908e65e 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <sys/socket.h>
 #include <netinet/in.h>
+#include <arpa/inet.h>
 #include <linux/types.h>
 #include <linux/input.h>
 #include <linux/hidraw.h>
@@ -171,7 +172,7 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 		sprintf(&buffer[i * 2], "%02x", packet[i]);
 	}
 	buffer[len * 2] = '\n';
-	write(filedes, buffer, len * 2 + 1);
+	return write(filedes, buffer, len * 2 + 1);
 }
 
 int main(int argc, char *argv[]) {
@@ -253,16 +254,20 @@ int main(int argc, char *argv[]) {
 						perror("accept");
 						exit(EXIT_FAILURE);
 					}
-					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
+					fprintf(stderr, "Server: connect from host %s, port %hu.\n",
 							inet_ntoa(clientname.sin_addr),
 							ntohs(clientname.sin_port));
-					FD_SET(new_client, &active_fd_set);
 					for (j = 0; j < MAX_CLIENTS; j++) {
 						if (client_fds[j] == -1) {
-							client_fds[j] = new_client;
 							break;
 						}
 					}
+					if (j == MAX_CLIENTS || new_client >= FD_SETSIZE) {
+						close(new_client);
+					} else {
+						FD_SET(new_client, &active_fd_set);
+						client_fds[j] = new_client;
+					}
 				} else if (i == fd_cemi) {
 					int l = read_from_knx_cemi(fd_cemi, packet);
 					for (j = 0; j < MAX_CLIENTS; j++) {
-- 
2.43.0


From 4ee6f8fef37796279f64c292639912d0d1b9d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 25/31] fix: a client closing its connection while the daemon
 writes to it does not kill the daemon

---
 daemon/usbhid.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 908e65e..642a073 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -1,5 +1,6 @@
 #include <ctype.h>
 #include <fcntl.h>
+#include <signal.h>
 #include <stdio.h>
 #include <errno.h>
 #include <getopt.h>
@@ -185,7 +186,7 @@ int main(int argc, char *argv[]) {
 	char *dev_hidraw = "/dev/hidraw1";
 	char *port = "8765";
 	char *host = "172.20.35.81";
-	char *packet;
+	unsigned char *packet;
 	size_t size;
 	int option_index = 0;
 	int fd_cemi;
@@ -225,7 +226,12 @@ int main(int argc, char *argv[]) {
 	}
 
 	fd_cemi = open_knx_cemi(dev_hidraw);
-	packet = (char *) malloc(KNXHIDPACKETLEN);
+	packet = (unsigned char *) malloc(KNXHIDPACKETLEN);
+	if (packet == NULL) {
+		perror("malloc");
+		exit(EXIT_FAILURE);
+	}
+	signal(SIGPIPE, SIG_IGN); /* a client which goes away is not fatal */
 
 	FD_ZERO(&active_fd_set);
 	FD_SET(sock, &active_fd_set);
-- 
2.43.0


From 43f77109cf27e94e56e140d0288b62b75c258098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 26/31] fix: the value of a datapoint decoded from the APCI
 octet does not include the service bits

---
 knx_stack/definition/layer/link/ldata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index fd441bb..057400c 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -1,6 +1,6 @@
 from ctypes import c_uint8, LittleEndianStructure, c_uint16, Union
 from enum import IntEnum
-from knx_stack import Msg
+from knx_stack import Msg, Octect
 
 
 class Priority(IntEnum):
@@ -354,7 +354,7 @@ class L_Data(LittleEndianStructure):
         if body:
             new_msg = Msg(body)
         else:
-            new_msg = Msg([apci])
+            new_msg = Msg([Octect(value=l_data.data)])
 
         return l_data, new_msg
 
-- 
2.43.0


From c5d35621a0fe5e064ac5d8e03835774609dfabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 27/31] fix: transport control frames (T_Connect, T_Disconnect,
 T_ACK, T_NAK) have no APCI octet, decoding them does not raise

---
 knx_stack/definition/layer/link/ldata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index 057400c..f7b7b34 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -348,8 +348,9 @@ class L_Data(LittleEndianStructure):
         l_data._npdu_length = npdu_length.value
         (tpci, body) = body.octect()
         l_data._tpci = TPCI(value=tpci.value)
-        (apci, body) = body.octect()
-        l_data._apci = APCI(value=apci.value)
+        if body or not l_data.connected:  # a control TPDU has no APCI octet
+            (apci, body) = body.octect()
+            l_data._apci = APCI(value=apci.value)
 
         if body:
             new_msg = Msg(body)
-- 
2.43.0


From 886db1dfb56121cae507c2a4904f01e82bd8f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 28/31] fix: a frame with fewer octets than its length declares
 is rejected instead of delivering a value built from what is left

---
 knx_stack/definition/layer/link/ldata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index f7b7b34..413e673 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -346,6 +346,8 @@ class L_Data(LittleEndianStructure):
         l_data._destination = destination.value
         (npdu_length, body) = body.octect()
         l_data._npdu_length = npdu_length.value
+        if len(body) <= npdu_length.value:
+            raise IndexError("truncated frame")
         (tpci, body) = body.octect()
         l_data._tpci = TPCI(value=tpci.value)
         if body or not l_data.connected:  # a control TPDU has no APCI octet
-- 
2.43.0


From f56e51a44101ae52b3b20eaa2c73d385ce5b9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 29/31] fix: the smallest DPT_Float_16 number, -671088.64, can
 be encoded

---
 knx_stack/datapointtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 6b8ecb6..b9763dd 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -710,7 +710,7 @@ class DPT_Float_16(Union):
         mantissa = abs(int(round(decimal_mantissa, 2)))  # two decimals
 
         exp = 0
-        max_mantissa_value = (1 << 11) - 1
+        max_mantissa_value = (1 << 11) - 1 if sign > 0 else 1 << 11
         max_exp_value = (1 << 4) - 1
 
         while mantissa > max_mantissa_value:
-- 
2.43.0


From ff935c957d727e65afad7ba3425ab8967b8b83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 30/31] fix: a datapoint with an operating mode its enumeration
 does not define can be described and printed

---
 knx_stack/datapointtypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index b9763dd..8180e28 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -76,7 +76,11 @@ class Description_Factory(object):
             ["bits", "value", "__weakref__", "_b_base_", "_b_needsfree_", "_objects"]
         )
         for name in fields:
-            field = dpt.__getattribute__(name)
+            try:
+                field = dpt.__getattribute__(name)
+            except ValueError:
+                # a code the enumeration does not define
+                field = getattr(dpt.bits, name)
             if isinstance(field, IntEnum):
                 description[name] = field.name
             else:
-- 
2.43.0


From 39c8928a0fac10d33dd9c2c5caced5d88aa89963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 31/31] fix: the daemon's -d option takes the device name it
 documents

---
 daemon/usbhid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 642a073..77205b3 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -179,7 +179,7 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 int main(int argc, char *argv[]) {
 	fd_set active_fd_set, read_fd_set;
 	struct sockaddr_in clientname;
-	static char *shortopts = "hdpi";
+	static char *shortopts = "hd:p:i";
 	static struct option longopts[] = { { "help", 0, NULL, 'h' }, { "host", 1,
 			NULL, 's' }, { "port", 1, NULL, 'p' },
 			{ "dev-hidraw", 1, NULL, 'd' }, { 0, 0, 0, 0 }, };
-- 
2.43.0

