From 7d5504dc01c0994dd5a0efa80cbc003afcfde2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 01/62] fix: write the UUID of every identifiable element

---
 src/autosar/xml/writer.py | 220 ++++++++++++++++++++++++++++----------
 1 file changed, 165 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..92adf9d 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1588,7 +1588,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1625,7 +1627,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1676,7 +1680,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1701,7 +1707,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1731,7 +1739,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1755,7 +1765,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1780,7 +1792,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2784,7 +2798,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-DECLARATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2814,7 +2830,9 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-TRANSITION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2912,7 +2930,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("NV-DATA-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2937,7 +2957,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2962,7 +2984,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SENDER-RECEIVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3016,7 +3040,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ERROR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3036,7 +3062,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-OPERATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3068,7 +3096,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3097,7 +3127,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3169,7 +3201,9 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3591,7 +3625,9 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("P-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3616,7 +3652,9 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("R-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3643,7 +3681,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PR-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3707,7 +3747,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3721,7 +3763,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SW-COMPONENT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3764,7 +3808,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASSEMBLY-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3780,7 +3826,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DELEGATION-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3802,7 +3850,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3818,7 +3868,9 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3852,7 +3904,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-IMPLEMENTATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4109,7 +4163,9 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child(tag, attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4186,7 +4242,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4200,7 +4258,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4217,7 +4277,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4238,7 +4300,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4268,7 +4332,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGERING-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4283,7 +4349,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4321,7 +4389,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4376,7 +4446,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-ACCESS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4399,7 +4471,9 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("WAIT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4473,7 +4547,9 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("RUNNABLE-ENTITY", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4591,7 +4667,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4606,7 +4684,9 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("BACKGROUND-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4619,7 +4699,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4634,7 +4716,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4649,7 +4733,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-SEND-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4664,7 +4750,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4679,7 +4767,9 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4694,7 +4784,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INIT-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4707,7 +4799,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4722,7 +4816,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCHED-ACK-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4737,7 +4833,9 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("OPERATION-INVOKED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4752,7 +4850,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4767,7 +4867,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-SWITCH-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4796,7 +4898,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TIMING-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4813,7 +4917,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4911,7 +5017,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXCLUSIVE-AREA", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4922,7 +5030,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-INTERNAL-BEHAVIOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From 3ef6ba7697fd27a202ee7a3e26abba6b4a378310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 02/62] fix: keep admin data, introduction and annotations
 given to identifiable elements

---
 src/autosar/xml/element.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..8561e38 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -234,13 +234,14 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union[list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
         self.category = None
-        self.admin_data = None
-        self.introduction = None
-        self.annotations = None
+        self.introduction: Union["DocumentationBlock", None] = None
+        self.annotations: Union[list["Annotation"], None] = None
         self.uuid = None
         self.admin_data: Union["AdminData", None] = None
         if desc is not None:
@@ -254,6 +255,13 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('admin_data', admin_data, AdminData)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        if annotations is not None:
+            for annotation in annotations:
+                if not isinstance(annotation, Annotation):
+                    raise TypeError(f"Invalid type for argument 'annotations': {str(type(annotation))}")
+            self.annotations = list(annotations)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
-- 
2.43.0


From fb6c22d806cc73781b47f5f59bf87b48c0df2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 03/62] fix: write all annotations of an element inside one
 ANNOTATIONS element

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 92adf9d..4797df5 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -576,10 +576,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From 81f638dc16347aae43cefeb116b6a5a769360fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 04/62] fix: write and read back the service kind of port
 interfaces

---
 src/autosar/xml/enumeration.py | 54 ++++++++++++++++++++++++++++++++++
 src/autosar/xml/reader.py      |  4 ++-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 554e614..6d4b2fd 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1089,6 +1089,33 @@ xml_to_enum_map: dict[str, dict] = {
         "USE-ARRAY-BASE-TYPE": ServerArgImplPolicy.USE_ARRAY_BASED_TYPE,
         "USE-VOID": ServerArgImplPolicy.USE_VOID
     },
+    "ServiceKind": {
+        "ANY-STANDARDIZED": ServiceKind.ANY_STANDARDIZED,
+        "BASIC-SOFTWARE-MODE-MANAGER": ServiceKind.BASIC_SOFTWARE_MODE_MANAGER,
+        "COM-MANAGER": ServiceKind.COM_MANAGER,
+        "CRYPTO-KEY-MANAGEMENT": ServiceKind.CRYPTO_KEY_MANAGEMENT,
+        "CRYPTO-SERVICE-MANAGER": ServiceKind.CRYPTO_SERVICE_MANAGER,
+        "DEFAULT-ERROR-TRACER": ServiceKind.DEFAULT_ERROR_TRACER,
+        "DEVELOPMENT-ERROR-TRACER": ServiceKind.DEVELOPMENT_ERROR_TRACER,
+        "DIAGNOSTIC-COMMUNICATION-MANAGER": ServiceKind.DIAGNOSTIC_COMMUNICATION_MANAGER,
+        "DIAGNOSTIC-EVENT-MANAGER": ServiceKind.DIAGNOSTIC_EVENT_MANAGER,
+        "DIAGNOSTIC-LOG-AND-TRACE": ServiceKind.DIAGNOSTIC_LOG_AND_TRACE,
+        "ECU-MANAGER": ServiceKind.ECU_MANAGER,
+        "ERROR-TRACER": ServiceKind.ERROR_TRACER,
+        "FUNCTION-INHIBITION-MANAGER": ServiceKind.FUNCTION_INHIBITION_MANAGER,
+        "HARDWARE-TEST-MANAGER": ServiceKind.HARDWARE_TEST_MANAGER,
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT": ServiceKind.INTRUSION_DETECTION_SECURITY_MANAGEMENT,
+        "J-1939-DCM": ServiceKind.J1939_DCM,
+        "J-1939-REQUEST-MANAGER": ServiceKind.J1939_REQUEST_MANAGER,
+        "NON-VOLATILE-RAM-MANAGER": ServiceKind.NON_VOLATILE_RAM_MANAGER,
+        "OPERATING-SYSTEM": ServiceKind.OPERATING_SYSTEM,
+        "SECURE-ON-BOARD-COMMUNICATION": ServiceKind.SECURE_ON_BOARD_COMMUNICATION,
+        "SYNC-BASE-TIME-MANAGER": ServiceKind.SYNC_BASE_TIME_MANAGER,
+        "V-2-X-FACILITIES": ServiceKind.V2X_FACILITIES,
+        "V-2-X-MANAGEMENT": ServiceKind.V2X_MANAGEMENT,
+        "VENDOR-SPECIFIC": ServiceKind.VENDOR_SPECIFIC,
+        "WATCH-DOG-MANAGER": ServiceKind.WATCH_DOG_MANAGER,
+    },
     "SupportBufferLocking": {
         "DOES-NOT-SUPPORT-BUFFER-LOCKING": SupportBufferLocking.DOES_NOT_SUPPORT_BUFFER_LOCKING,
         "SUPPORTS-BUFFER-LOCKING": SupportBufferLocking.SUPPORTS_BUFFER_LOCKING
@@ -1497,6 +1524,33 @@ enum_to_xml_map: dict[str, list] = {
         "USE-ARRAY-BASE-TYPE",  # 1
         "USE-VOID",             # 2
     ],
+    "ServiceKind": [
+        "ANY-STANDARDIZED",                         # 0
+        "BASIC-SOFTWARE-MODE-MANAGER",              # 1
+        "COM-MANAGER",                              # 2
+        "CRYPTO-SERVICE-MANAGER",                   # 3
+        "DEFAULT-ERROR-TRACER",                     # 4
+        "DEVELOPMENT-ERROR-TRACER",                 # 5
+        "DIAGNOSTIC-COMMUNICATION-MANAGER",         # 6
+        "DIAGNOSTIC-EVENT-MANAGER",                 # 7
+        "DIAGNOSTIC-LOG-AND-TRACE",                 # 8
+        "ECU-MANAGER",                              # 9
+        "FUNCTION-INHIBITION-MANAGER",              # 10
+        "J-1939-REQUEST-MANAGER",                   # 11
+        "NON-VOLATILE-RAM-MANAGER",                 # 12
+        "OPERATING-SYSTEM",                         # 13
+        "SECURE-ON-BOARD-COMMUNICATION",            # 14
+        "SYNC-BASE-TIME-MANAGER",                   # 15
+        "VENDOR-SPECIFIC",                          # 16
+        "WATCH-DOG-MANAGER",                        # 17
+        "ERROR-TRACER",                             # 18
+        "HARDWARE-TEST-MANAGER",                    # 19
+        "V-2-X-FACILITIES",                         # 20
+        "V-2-X-MANAGEMENT",                         # 21
+        "J-1939-DCM",                               # 22
+        "CRYPTO-KEY-MANAGEMENT",                    # 23
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT"   # 24
+    ],
     "SupportBufferLocking": [
         "DOES-NOT-SUPPORT-BUFFER-LOCKING",  # 0
         "SUPPORTS-BUFFER-LOCKING"           # 1
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..a724a54 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3337,7 +3337,9 @@ class Reader:
         if inner_elem is not None:
             data['is_service'] = self._read_boolean(inner_elem.text)
         xml_elements.skip('NAMESPACES')  # Not supported
-        xml_elements.skip('SERVICE-KIND')  # Implement later
+        inner_elem = xml_elements.get('SERVICE-KIND')
+        if inner_elem is not None:
+            data['service_kind'] = ar_enum.xml_to_enum('ServiceKind', inner_elem.text)
 
     def _read_nv_data_interface(self, xml_element: ElementTree.Element) -> ar_element.NvDataInterface:
         """
-- 
2.43.0


From 1883571e0ef7a01eafbae1bef7206d6be6dc6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 05/62] fix: read the VALIDITY attribute of SCALE-CONSTR

---
 src/autosar/xml/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a724a54..f1f1198 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1430,6 +1430,8 @@ class Reader:
         Tag variants: 'SCALE-CONSTR'
         """
         data = {}
+        if "VALIDITY" in xml_element.attrib:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", xml_element.attrib["VALIDITY"])
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("SHORT-LABEL")
         if xml_child is not None:
-- 
2.43.0


From 454a5025e21c28b8e4a35e4886bdb493f79c5ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 06/62] fix: do not read an empty BASE-TYPE-ENCODING or
 NATIVE-DECLARATION as the text None

---
 src/autosar/xml/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index f1f1198..c5b793d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1642,7 +1642,7 @@ class Reader:
             data['max_size'] = ar_element.PositiveIntegerValue(xml_child.text).value
         xml_child = child_elements.get('BASE-TYPE-ENCODING')
         if xml_child is not None:
-            data['encoding'] = str(xml_child.text)
+            data['encoding'] = xml_child.text
         xml_child = child_elements.get('MEM-ALIGNMENT')
         if xml_child is not None:
             data['alignment'] = ar_element.PositiveIntegerValue(xml_child.text).value
@@ -1652,7 +1652,7 @@ class Reader:
                 'ByteOrder', xml_child.text)
         xml_child = child_elements.get('NATIVE-DECLARATION')
         if xml_child is not None:
-            data['native_declaration'] = str(xml_child.text)
+            data['native_declaration'] = xml_child.text
 
     def _read_sw_bit_representation(self, xml_element: ElementTree.Element) -> ar_element.SwBitRepresentation:
         """
-- 
2.43.0


From 42a54fbc18bcacdfdd73ba21218ab7e75763fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 07/62] fix: write floats of 1e28 and above

---
 src/autosar/xml/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 4797df5..8c7a810 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -134,9 +134,9 @@ class _XMLWriter:
         if math.isnan(value):
             return 'NaN'
         else:
-            tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
-            return str(result)
+            if value == int(value):
+                return str(int(value))
+            return str(decimal.Decimal(str(value)).normalize())
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
         """
-- 
2.43.0


From 502e124671dd09dc2cc121774dfc8e9f63e5d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 08/62] fix: write negative hexadecimal and binary numbers in a
 readable form

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 8c7a810..8d8e063 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -162,9 +162,9 @@ class _XMLWriter:
         if number.value_format in (ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL):
             return self._format_number(number.value)
         elif number.value_format == ar_enum.ValueFormat.HEXADECIMAL:
-            return f"0x{number.value:x}"
+            return f"{number.value:#x}"
         elif number.value_format == ar_enum.ValueFormat.BINARY:
-            return f"0b{number.value:b}"
+            return f"{number.value:#b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
             return f"{number.value:e}"
         else:
-- 
2.43.0


From 3fbac250051f995fd6fd26abb115ab6fd7910b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 09/62] fix: keep all digits of numbers written in scientific
 format

---
 src/autosar/xml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 8d8e063..92e7f98 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -166,7 +166,7 @@ class _XMLWriter:
         elif number.value_format == ar_enum.ValueFormat.BINARY:
             return f"{number.value:#b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            return f"{decimal.Decimal(str(number.value)):e}"
         else:
             raise NotImplementedError
 
-- 
2.43.0


From c769c9409b3058c8ff0fc913041910dc0495313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 10/62] fix: escape text and attribute values in written XML

---
 src/autosar/xml/writer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 92e7f98..1e96cd3 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -4,6 +4,7 @@ ARXML writer module
 # pylint: disable=consider-using-with, duplicate-code
 from io import StringIO
 from typing import TextIO
+from xml.sax.saxutils import escape, quoteattr
 import sys
 import math
 import decimal
@@ -70,7 +71,7 @@ class _XMLWriter:
         self.fh.write(text)
 
     def _add_inline_text(self, text):
-        self.fh.write(text)
+        self.fh.write(escape(text))
 
     def _add_child(self, tag: str, attr: TupleList = None):
         if attr:
@@ -94,7 +95,7 @@ class _XMLWriter:
             text = f'<{tag}>'
         else:
             text = f'<{tag} {self._attr_to_str(attr)}>'
-        self._add_inline_text(text)
+        self.fh.write(text)
 
     def _end_line(self, tag: str):
         text = f'</{tag}>'
@@ -102,6 +103,7 @@ class _XMLWriter:
 
     def _add_content(self, tag: str, content: str = '', attr: TupleList = None, inline: bool = False):
         assert isinstance(content, str)
+        content = escape(content)
         if attr:
             if content:
                 text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
@@ -113,7 +115,7 @@ class _XMLWriter:
             else:
                 text = f'<{tag}/>'
         if inline:
-            self._add_inline_text(text)
+            self.fh.write(text)
         else:
             self._add_line(text)
 
@@ -121,7 +123,7 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}={quoteattr(str(elem[1]))}' for elem in attr]
         return ' '.join(parts)
 
     def _format_float(self, value: float) -> str:
-- 
2.43.0


From dc0404a91062618ee674b3059f99e21650e325a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 11/62] fix: use the given reference text for the physical
 dimension of a unit

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8561e38..20cf0aa 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1549,7 +1549,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
-- 
2.43.0


From 8946d93d84599d5d8f055041f32188ffc6d0a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 12/62] fix: accept a list of provided com-specs for a PR port
 without required com-specs

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 20cf0aa..7a758e7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4821,7 +4821,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
-- 
2.43.0


From b8210158432deb7754b6f474f08ad8daa39031b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 13/62] fix: accept a single ApplicationError as
 possible_errors of a client-server interface

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7a758e7..b9c3e7e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3783,7 +3783,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
-- 
2.43.0


From d5bf827b2ecb68a8ba4aaf02418a53d88376ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 14/62] fix: do not silently ignore values of an unsupported
 type given to SwValues

---
 src/autosar/xml/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b9c3e7e..c5d6dd7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2442,6 +2442,8 @@ class SwValues(ARObject):
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
+            else:
+                raise TypeError(f"Invalid type for 'values': {str(type(values))}")
 
     def append(self, value: SwValueElement) -> None:
         """
@@ -2464,8 +2466,8 @@ class ValueGroup(SwValues):
     """
 
     def __init__(self,
-                 label: str | MultilanguageLongName | tuple[ar_enum.Language, str] | LanguageLongName | None = None,
-                 values: SwValues | None = None) -> None:
+                 label: MultilanguageLongName | tuple[ar_enum.Language, str] | LanguageLongName | None = None,
+                 values: SwValueElement | list[SwValueElement] | None = None) -> None:
         self.label: MultilanguageLongName | None = None
         super().__init__(values)
         if label is not None:
-- 
2.43.0


From 976a6fe9abeab9eb792496e8bd09fb6cb9f57a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 15/62] fix: accept a single suffix filter in a
 package-to-document mapping

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..a47e201 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -47,7 +47,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
-- 
2.43.0


From 9c7e9f5f0f03fa939f3238d1902353e89d6b0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 16/62] fix: do not silently ignore context data prototype
 references of an unsupported type

---
 src/autosar/xml/element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index c5d6dd7..c66462c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5766,6 +5766,9 @@ class ArVariableInImplementationDataInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError("context_data_prototype_refs: Invalid type "
+                                f"'{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: AbstractImplementationDataTypeElementRef):
         """
@@ -5812,6 +5815,9 @@ class VariableInAtomicSWCTypeInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError("context_data_prototype_refs: Invalid type "
+                                f"'{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: ApplicationCompositeElementDataPrototypeRef):
         """
-- 
2.43.0


From 5d2e2fb19d0beaf253ad8df9a32e4a24fc6c1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 17/62] fix: annotate arguments with the types their
 constructors accept

---
 src/autosar/xml/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index c66462c..2b9a942 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1697,7 +1697,7 @@ class SwDataDefPropsConditional(ARObject):
                  data_constraint_ref: str | DataConstraintRef | None = None,
                  impl_data_type_ref: str | ImplementationDataTypeRef | None = None,
                  unit_ref: str | UnitRef | None = None,
-                 alignment: int | float | None = None,
+                 alignment: int | str | None = None,
                  bit_representation: SwBitRepresentation | None = None,
                  calibration_access: ar_enum.SwCalibrationAccess | None = None,
                  text_props: SwTextProps | None = None,
@@ -7364,7 +7364,7 @@ class ExternalTriggerOccurredEvent(RteEvent):
     def __init__(self,
                  name: str,
                  start_on_event: RunnableEntityRef | str | None = None,
-                 trigger: RTriggerInAtomicSwcInstanceRef | str | None = None,
+                 trigger: RTriggerInAtomicSwcInstanceRef | None = None,
                  **kwargs) -> None:
         super().__init__(name, start_on_event, **kwargs)
         # .TRIGGER-IREF
@@ -7524,7 +7524,7 @@ class SwcModeManagerErrorEvent(RteEvent):
     def __init__(self,
                  name: str,
                  start_on_event: RunnableEntityRef | str | None = None,
-                 mode_group: PModeGroupInAtomicSwcInstanceRef | str | None = None,
+                 mode_group: PModeGroupInAtomicSwcInstanceRef | None = None,
                  **kwargs) -> None:
         super().__init__(name, start_on_event, **kwargs)
         # .MODE-GROUP-IREF
-- 
2.43.0


From bbc3321ff956386cd262b39da41d798072a4d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 18/62] fix: containers become the parent of the elements put
 into them

---
 src/autosar/xml/element.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 2b9a942..8e86c17 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -474,6 +474,7 @@ class Implementation(ARElement):
         Appends code descriptor to internal list of descriptors
         """
         if isinstance(code_descriptors, Code):
+            code_descriptors.parent = self
             self.code_descriptors.append(code_descriptors)
         else:
             raise TypeError("code_descriptors must be of type Code")
@@ -1933,6 +1934,7 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -1980,6 +1982,7 @@ class ImplementationDataType(AutosarDataType):
                 self.append(elem)
         if symbol_props is not None:
             if isinstance(symbol_props, SymbolProps):
+                symbol_props.parent = self
                 self.symbol_props = symbol_props
             else:
                 raise TypeError("'symbol_props' must be of type SymbolProps")
@@ -1989,6 +1992,7 @@ class ImplementationDataType(AutosarDataType):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -2232,6 +2236,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if element is not None:
+            element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2292,6 +2298,7 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         Appends element to elements list
         """
         if isinstance(element, ApplicationRecordElement):
+            element.parent = self
             self.elements.append(element)
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
@@ -3275,7 +3282,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
@@ -3679,6 +3686,7 @@ class ClientServerOperation(Identifiable):
         Appends argument to internal list of arguments
         """
         if isinstance(argument, ArgumentDataPrototype):
+            argument.parent = self
             self.arguments.append(argument)
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
@@ -3871,6 +3879,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if mode_group is not None:
+            mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
@@ -5159,7 +5169,11 @@ class AtomicSoftwareComponentType(SwComponentType):
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
         self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        if internal_behavior is not None:
+            internal_behavior.parent = self
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
+        if symbol_props is not None:
+            symbol_props.parent = self
 
     @property
     def internal_behavior(self) -> Union["SwcInternalBehavior", None]:
@@ -5545,7 +5559,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5555,7 +5569,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
@@ -6060,6 +6074,7 @@ class ExecutableEntity(Identifiable):
         Appends activation_reason to internal list of activation reasons
         """
         if isinstance(activation_reason, ExecutableEntityActivationReason):
+            activation_reason.parent = self
             self.activation_reasons.append(activation_reason)
         else:
             raise TypeError("activation_reason must be of type ExecutableEntityActivationReason")
-- 
2.43.0


From faca26bb34209f568e428b5bdd356b04f548589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 19/62] fix: creating a package under a name in use raises the
 error instead of returning it

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8e86c17..080361c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2904,7 +2904,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3080,7 +3080,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From ee2713a567f324ec1aad50d4d670cacc013f623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 20/62] fix: extending a record type checks all elements before
 adding any

---
 src/autosar/xml/element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 080361c..14576a5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2307,7 +2307,11 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         """
         Extends elements to elements list
         """
+        elements = list(elements)
         for element in elements:  # We want to type-check each element before adding to internal list
+            if not isinstance(element, ApplicationRecordElement):
+                raise TypeError("'element' must be of type ApplicationRecordElement")
+        for element in elements:
             self.append(element)
 
     def ref(self) -> ApplicationDataTypeRef | None:
-- 
2.43.0


From 2b14053de936682ba8cf3af01406056923cdac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 21/62] fix: creating port API options adds none of them when
 one is refused

---
 src/autosar/xml/element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 14576a5..b7f2967 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8543,6 +8543,7 @@ class SwcInternalBehavior(InternalBehavior):
         else:
             raise TypeError(f"port_name: Expected type string or list of string. Got {str(type(port_name))}")
         if len(ports_to_process):
+            options: list[PortApiOption] = []
             for port in sorted(swc.ports, key=lambda x: x.name.lower()):
                 if port.name in ports_to_process:
                     ports_to_process[port.name] = True
@@ -8553,10 +8554,12 @@ class SwcInternalBehavior(InternalBehavior):
                                                                    port_arg_values,
                                                                    supported_features,
                                                                    transformer_status_forwarding)
-                    self.append_port_api_option(option)
+                    options.append(option)
             for key, value in ports_to_process.items():
                 if not value:
                     raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
+            for option in options:
+                self.append_port_api_option(option)
 
     def _create_port_api_option_internal(self,
                                          port: PortPrototypeElement,
-- 
2.43.0


From 883967b8c84916008006366d4c144328c95dce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 22/62] fix: writing to a file closes it also when an element
 cannot be written

---
 src/autosar/xml/writer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1e96cd3..f7c182b 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -413,8 +413,10 @@ class Writer(_XMLWriter):
         Serialized the document to file
         """
         self._open(file_path)
-        self._write_document(document)
-        self._close()
+        try:
+            self._write_document(document)
+        finally:
+            self._close()
 
     def write_str_elem(self, elem: ar_element.ARObject, tag: str | None = None):
         """
@@ -438,13 +440,15 @@ class Writer(_XMLWriter):
         Writes single ARXML element to file
         """
         self._open(file_path)
-        class_name = elem.__class__.__name__
-        write_method = self.switcher_collectable.get(class_name, None)
-        if write_method is not None:
-            write_method(elem)
-        else:
-            raise NotImplementedError(f"Found no writer for {class_name}")
-        self._close()
+        try:
+            class_name = elem.__class__.__name__
+            write_method = self.switcher_collectable.get(class_name, None)
+            if write_method is not None:
+                write_method(elem)
+            else:
+                raise NotImplementedError(f"Found no writer for {class_name}")
+        finally:
+            self._close()
 
     # Abstract base classes
 
-- 
2.43.0


From a24f50964896b7f0c4af9b57e0c2b61137287261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 23/62] fix: computations and element templates copy the list
 they are given

---
 src/autosar/xml/element.py  | 2 +-
 src/autosar/xml/template.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b7f2967..cb5ece1 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1192,7 +1192,7 @@ class Computation(ARObject):
                  compu_scales: list[CompuScale] | None = None,
                  default_value: CompuConst | int | float | str | None = None) -> None:
 
-        self.compu_scales = compu_scales
+        self.compu_scales = None if compu_scales is None else list(compu_scales)
         self.default_value: CompuConst | int | float | str | None = None  # .COMPU-DEFAULT-VALUE
         if isinstance(default_value, CompuConst):
             self.default_value = default_value
diff --git a/src/autosar/xml/template.py b/src/autosar/xml/template.py
index 540c0f1..cc94f34 100644
--- a/src/autosar/xml/template.py
+++ b/src/autosar/xml/template.py
@@ -49,7 +49,7 @@ class ElementTemplate(TemplateBase):
         self.element_name = element_name
         self.namespace_name = namespace_name
         self.package_role = package_role
-        self.depends = depends
+        self.depends = None if depends is None else list(depends)
         self.append_to_package = append_to_package
 
     @abstractmethod
-- 
2.43.0


From 9ca2dfacda4fc3fb21084a207325ab45e0c9de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 24/62] fix: updating behavior settings checks all values
 before setting any

---
 src/autosar/xml/element.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index cb5ece1..1d72b3f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2999,20 +2999,27 @@ class BehaviorSettings:
         """
         Updates a single value with error check
         """
-        if hasattr(self, name):
-            if not isinstance(value, str):
-                raise TypeError(f"value: Expected string type. Got {str(type(value))}")
-            setattr(self, name, value)
-        else:
-            raise KeyError(f"name: Invalid name '{name}'")
+        self._check_value(name, value)
+        setattr(self, name, value)
 
     def update(self, value_map: dict[str, str]):
         """
         Updates multiple values using keys in value_map, with error-check
         """
+        for name, value in value_map.items():
+            self._check_value(name, value)
         for name, value in value_map.items():
             self.set_value(name, value)
 
+    def _check_value(self, name: str, value: str):
+        """
+        Raises an error if name or value is invalid
+        """
+        if not hasattr(self, name):
+            raise KeyError(f"name: Invalid name '{name}'")
+        if not isinstance(value, str):
+            raise TypeError(f"value: Expected string type. Got {str(type(value))}")
+
     def set_default(self):
         """
         Set default values (Not yet implemented)
-- 
2.43.0


From e0c6b62b9077300abecd18ca76cd08f95083a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 25/62] fix: reading a document forgets the schema version and
 file of the previous one

---
 src/autosar/xml/reader.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index c5b793d..d6f96ca 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -124,6 +124,7 @@ class Reader:
         self.use_full_path_on_warning = use_full_path_on_warning
         self.observed_unsupported_elements = None
         self.schema_file: str = ''
+        self.default_schema_version = schema_version  # used unless a document states its own
         self.schema_version = schema_version
         self.document: ar_document.Document = None
         self.stop_on_error = False
@@ -351,6 +352,7 @@ class Reader:
         """
         Reads ARXML document file
         """
+        self._reset_schema_version()
         self.document = None
         self.xml_root = ElementTree.ElementTree().parse(file_path)
         self.file_path = file_path
@@ -366,6 +368,7 @@ class Reader:
         """
         Reads ARXML document from string.
         """
+        self._reset_schema_version()
         self.observed_unsupported_elements = set()
         self.document = None
         self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
@@ -382,7 +385,10 @@ class Reader:
         Reads a concrete ARXML element from string.
         This is primarily used for unit-testing.
         """
+        self._reset_schema_version()
         self.observed_unsupported_elements = set()
+        self.file_path = None
+        self.file_base_name = None
         elem = ElementTree.fromstring(xml)
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
@@ -586,6 +592,13 @@ class Reader:
 #            if xml_node.tag == 'FILE-INFO-COMMENT':
 #                self._read_file_info_comment(xml_node, self.document)
 
+    def _reset_schema_version(self) -> None:
+        """
+        Forgets the schema version of the previous document
+        """
+        self.schema_file = ''
+        self.schema_version = self.default_schema_version
+
     def _read_schema_version(self) -> None:
         for key in self.xml_root.attrib.keys():
             if key.endswith('schemaLocation'):
-- 
2.43.0


From e29666c0d1c2ed5d3921cc298376c43527717780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 26/62] fix: writing a single element forgets the schema
 version of the document written before

---
 src/autosar/xml/writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index f7c182b..2e08c02 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -187,6 +187,7 @@ class Writer(_XMLWriter):
     def __init__(self,
                  schema_version: int = ar_base.DEFAULT_SCHEMA_VERSION) -> None:
         super().__init__(indentation_step=2)
+        self.default_schema_version = schema_version  # used when writing single elements
         self.schema_version = schema_version
 
         # Elements found in AR:PACKAGE
@@ -422,6 +423,7 @@ class Writer(_XMLWriter):
         """
         Writes single ARXML element as string
         """
+        self.schema_version = self.default_schema_version
         self._str_open()
         class_name = elem.__class__.__name__
         write_method = self.switcher_all.get(class_name, None)
@@ -439,6 +441,7 @@ class Writer(_XMLWriter):
         """
         Writes single ARXML element to file
         """
+        self.schema_version = self.default_schema_version
         self._open(file_path)
         try:
             class_name = elem.__class__.__name__
-- 
2.43.0


From f7b2a28f08dd9b0c23526811f59a302f3834d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 27/62] fix: writing documents leaves packages and elements in
 the workspace

---
 src/autosar/xml/workspace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a47e201..34d78ee 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -1,6 +1,7 @@
 """
 AUTOSAR XML Workspace
 """
+import copy
 import posixpath
 import os
 from typing import Any
@@ -227,16 +228,16 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
+        document_config.document = document
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        document.schema_version = schema_version
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+                document.append(copy.copy(package))  # the package itself stays in the workspace
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
@@ -268,7 +269,7 @@ class Workspace(ar_element.PackageCollection):
                 document = ar_document.Document(schema_version=schema_version)
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
-                    new_package.append(element)
+                    new_package.append(copy.copy(element))  # the element itself stays in its package
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From 10669be66659eb5ed066ae4c0bdf62f31e8c63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 28/62] fix: read mixed content with child elements other than
 TT

---
 src/autosar/xml/element.py | 14 +++++++-------
 src/autosar/xml/reader.py  | 18 +++++++++---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1d72b3f..55ce914 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -600,11 +600,11 @@ class MixedContentForLongName(LanguageSpecific):
         super().__init__(language)
         self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Superscript):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -617,17 +617,17 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
 
     def __init__(self, language: ar_enum.Language) -> None:
         super().__init__(language)
-        self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
+        self.parts = []  # Unbounded list of str | BR | TT | E | SUP | SUB | IE
         # Unsupported elements:
         # FT : AR:SL-OVERVIEW-PARAGRAPH
         # TRACE-REF: Complex type
         # XREF: AR:-XREF-TARGET
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | Break | TechnicalTerm | EmphasisText | Subscript | Superscript):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -808,11 +808,11 @@ class MixedContentForParagraph(LanguageSpecific):
         # XREF-TARGET: AR:-XREF-TARGET
 
     def append(self,
-               part: str | Break | EmphasisText | IndexEntry | Subscript | Subscript | TechnicalTerm):
+               part: str | Break | EmphasisText | IndexEntry | Subscript | Superscript | TechnicalTerm):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index d6f96ca..8f6077c 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -879,13 +879,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -936,7 +936,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -945,7 +945,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -991,7 +991,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -1006,7 +1006,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1022,7 +1022,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1031,7 +1031,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1136,7 +1136,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From 0c2f705d306b1a4b1deb29713ee0491e83323cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 29/62] fix: read admin data without SDGS and special data
 groups with any number of SD

---
 src/autosar/xml/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 8f6077c..df126dd 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -551,7 +551,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None and len(xml_sdgs):
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
@@ -570,8 +570,9 @@ class Reader:
         Reads Complex-type AR:SDG
         """
         group_key = xml_element.attrib['GID']
-        xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        special_data = {}
+        for xml_sd in xml_element.findall('./SD'):
+            special_data.update(self._read_admin_data_sd(xml_sd))
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
-- 
2.43.0


From 45e95b02e9cbf60cc009877376dd723d675b269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 30/62] fix: a mode declaration does not have the elements of a
 port interface

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index df126dd..6399e23 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3216,7 +3216,6 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
-        self._read_port_interface(child_elements, data)
         xml_child = child_elements.get('VALUE')
         if xml_child is not None:
             data["value"] = ar_element.PositiveIntegerValue(xml_child.text).value
-- 
2.43.0


From e213061b2bf702cb1e3c1c9ec68cc7085eaf41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 31/62] fix: a component prototype does not have the elements
 of a component type

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 6399e23..c35fcaa 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4317,7 +4317,6 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
-        self._read_sw_component_type(child_elements, data)
         xml_child = child_elements.get("TYPE-TREF")
         if xml_child is not None:
             data["type_ref"] = self._read_sw_component_type_ref(xml_child)
-- 
2.43.0


From 5ab4fcebb62677ea21824b887e81b5fcfc203018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 32/62] fix: a mode access point ident does not have the
 elements of a server call result point

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index c35fcaa..259cd73 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4945,7 +4945,7 @@ class Reader:
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
-        self._read_async_server_call_result_point_group(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPointIdent(**data)
 
     def _read_mode_access_point(self, xml_element: ElementTree.Element) -> ar_element.ModeAccessPoint:
-- 
2.43.0


From 9e38e448a3113395f4b6d1e71f81f616c4b8ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 33/62] fix: reception com-spec props do not have the elements
 of a receiver com-spec

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 259cd73..e3e4a58 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3923,7 +3923,6 @@ class Reader:
         """
         data = {}
         child_elements = ChildElementMap(xml_element)
-        self._read_receiver_com_spec(child_elements, data)
         xml_child = child_elements.get("DATA-UPDATE-PERIOD")
         if xml_child is not None:
             data["data_update_period"] = self._read_number(xml_child.text)
-- 
2.43.0


From b1d9d3ea442a1ae21b44578b6967bad8e2e7d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 34/62] fix: LONG-NAME belongs to multi-language referrables
 only

---
 src/autosar/xml/reader.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index e3e4a58..7ceb0e4 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -493,10 +493,6 @@ class Reader:
         else:
             raise ar_exception.ParseError(
                 "Missing required element SHORT-NAME")
-        xml_long_name = element_map.get('LONG-NAME')
-        if xml_long_name is not None:
-            data['long_name'] = self._read_multi_language_long_name(
-                xml_long_name)
 
     def _read_multi_language_referrable(self, element_map: ChildElementMap, data: dict) -> None:
         """
-- 
2.43.0


From d3ec0438e68b2a413bd4e84dd0bac68365bb4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 35/62] fix: read rational coefficients without numerator

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 55ce914..263bf2c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1104,7 +1104,7 @@ class CompuRational(ARObject):
     """
 
     def __init__(self,
-                 numerator: tuple[int | float] | list[int | float] | None,
+                 numerator: tuple[int | float] | list[int | float] | None = None,
                  denominator: tuple[int | float] | list[int | float] | None = None) -> None:
         if numerator is not None:
             if not isinstance(numerator, (tuple, list)):
-- 
2.43.0


From 53b9cfdc5f4042fac93af8cc0855925c6f2e2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 36/62] fix: read delegation connectors with an empty
 INNER-PORT-IREF

---
 src/autosar/xml/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 7ceb0e4..26f34ca 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4385,8 +4385,8 @@ class Reader:
         xml_child = child_elements.get("INNER-PORT-IREF")
         if xml_child is not None:
             xml_grand_child = xml_child.find("./*")
-            if xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
-                                       "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
+            if xml_grand_child is not None and xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
+                                                                       "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
                 data["inner_port"] = self._read_port_in_composition_type_instance_ref(xml_grand_child)
         xml_child = child_elements.get("OUTER-PORT-REF")
         if xml_child is not None:
-- 
2.43.0


From 5e9000e1c3b4d7d6c9322ce551e63b9c196f9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 37/62] fix: report value, com-spec and event kinds that are
 not supported instead of failing with KeyError

---
 src/autosar/xml/reader.py | 50 ++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 26f34ca..93f07ee 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -2943,7 +2943,8 @@ class Reader:
             elements = []
             for xml_child_elem in xml_elements.findall('./*'):
                 element = self._read_value_specification_element(xml_child_elem)
-                elements.append(element)
+                if element is not None:
+                    elements.append(element)
             data["elements"] = elements
 
     def _read_record_value_specification(self,
@@ -2970,7 +2971,8 @@ class Reader:
             fields = []
             for xml_child_elem in xml_elements.findall('./*'):
                 field = self._read_value_specification_element(xml_child_elem)
-                fields.append(field)
+                if field is not None:
+                    fields.append(field)
             data["fields"] = fields
 
     def _read_value_specification_group(self, child_elements: ChildElementMap, data: dict) -> None:
@@ -3016,15 +3018,15 @@ class Reader:
 
     def _read_value_specification_element(self,
                                           xml_element: ElementTree.Element
-                                          ) -> ar_element.ValueSpecificationElement:
+                                          ) -> ar_element.ValueSpecificationElement | None:
         """
         Reads any ValueSpecificationElement
         """
         read_method = self.switcher_value_specification.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
 
     def _read_constant_specification(self,
                                      xml_element: ElementTree.Element) -> ar_element.ConstantSpecification:
@@ -4137,25 +4139,25 @@ class Reader:
                 com_spec_props.append(self._read_e2e_transformation_com_spec_props(xml_grand_child))
             data["transformation_com_spec_props"] = com_spec_props
 
-    def _read_provided_com_spec(self, xml_element: ElementTree.Element) -> ProvidePortComSpecElement:
+    def _read_provided_com_spec(self, xml_element: ElementTree.Element) -> ProvidePortComSpecElement | None:
         """
         Reads com-spec element for p-port
         """
         read_method = self.switcher_provided_com_spec.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
 
-    def _read_required_com_spec(self, xml_element: ElementTree.Element) -> RequirePortComSpecElement:
+    def _read_required_com_spec(self, xml_element: ElementTree.Element) -> RequirePortComSpecElement | None:
         """
         Reads com-spec element for r-port
         """
         read_method = self.switcher_required_com_spec.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
 
     def _read_provide_port_prototype(self, xml_element: ElementTree.Element) -> ar_element.ProvidePortPrototype:
         """
@@ -4179,7 +4181,9 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_provided_com_spec(xml_grand_child))
+                com_spec = self._read_provided_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["com_spec"] = com_spec_list
         xml_child = child_elements.get("PROVIDED-INTERFACE-TREF")
         if xml_child is not None:
@@ -4207,7 +4211,9 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_required_com_spec(xml_grand_child))
+                com_spec = self._read_required_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["com_spec"] = com_spec_list
         xml_child = child_elements.get("MAY-BE-UNCONNECTED")
         if xml_child is not None:
@@ -4238,13 +4244,17 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_provided_com_spec(xml_grand_child))
+                com_spec = self._read_provided_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["provided_com_spec"] = com_spec_list
         xml_child = child_elements.get("REQUIRED-COM-SPECS")
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_required_com_spec(xml_grand_child))
+                com_spec = self._read_required_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["required_com_spec"] = com_spec_list
         xml_child = child_elements.get("PROVIDED-REQUIRED-INTERFACE-TREF")
         if xml_child is not None:
@@ -5737,7 +5747,9 @@ class Reader:
         if xml_child is not None:
             events = []
             for xml_grand_child in xml_child.findall("./*"):
-                events.append(self._read_rte_event_element(xml_grand_child))
+                event = self._read_rte_event_element(xml_grand_child)
+                if event is not None:
+                    events.append(event)
             data["events"] = events
         child_elements.skip("EXCLUSIVE-AREA-POLICYS")
         child_elements.skip("EXPLICIT-INTER-RUNNABLE-VARIABLES")
@@ -5766,12 +5778,12 @@ class Reader:
         child_elements.skip("VARIATION-POINT-PROXYS")
         child_elements.skip("VARIATION-POINT")
 
-    def _read_rte_event_element(self, xml_element: ElementTree.Element) -> RteEventElement:
+    def _read_rte_event_element(self, xml_element: ElementTree.Element) -> RteEventElement | None:
         """
         Reads one RTE event element
         """
         read_method = self.switcher_rte_event.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
-- 
2.43.0


From 4268568de02df45f129a73439851b8cbe55cebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 38/62] fix: report unread children of constraint, data type
 map, mode, trigger and admin data elements

---
 src/autosar/xml/reader.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 93f07ee..bde89b8 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -549,6 +549,7 @@ class Reader:
         xml_sdgs = element_map.get('SDGS')
         if xml_sdgs is not None and len(xml_sdgs):
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
+        self._report_unprocessed_elements(element_map)
         return ar_element.AdminData(**data)
 
     def _read_admin_data_sdgs(self, xml_element: ElementTree.Element) -> list:
@@ -1365,6 +1366,7 @@ class Reader:
         xml_child = child_elements.get("INTERNAL-CONSTRS")
         if xml_child is not None:
             data["internal"] = self._read_internal_constraint(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataConstraintRule(**data)
 
     def _read_internal_constraint(self, xml_element: ElementTree.Element) -> ar_element.InternalConstraint:
@@ -1376,6 +1378,7 @@ class Reader:
         data = {}
         child_elements = ChildElementMap(xml_element)
         self._read_constraint_base(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InternalConstraint(**data)
 
     def _read_physical_constraint(self, xml_element: ElementTree.Element) -> ar_element.PhysicalConstraint:
@@ -1390,6 +1393,7 @@ class Reader:
         xml_child = child_elements.get("UNIT-REF")
         if xml_child is not None:
             data["unit_ref"] = self._read_unit_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PhysicalConstraint(**data)
 
     def _read_constraint_base(self, child_elements: ChildElementMap, data: dict[str, Any]) -> None:
@@ -1459,6 +1463,7 @@ class Reader:
             limit, interval_type = self._read_limit(xml_child)
             data["upper_limit"] = limit
             data["upper_limit_type"] = interval_type
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
@@ -1691,6 +1696,7 @@ class Reader:
         xml_child = child_elements.get("SW-DATA-DEF-PROPS-VARIANTS")
         if xml_child is not None:
             data['variants'] = self._read_sw_data_def_props_variants(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.SwDataDefProps(**data)
 
     def _read_sw_data_def_props_variants(self,
@@ -2140,6 +2146,7 @@ class Reader:
         xml_child = child_elements.get("IMPLEMENTATION-DATA-TYPE-REF")
         if xml_child is not None:
             data["impl_data_type_ref"] = self._read_impl_data_type_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataTypeMap(**data)
 
     def _read_data_type_mapping_set(self, xml_element: ElementTree.Element) -> ar_element.DataTypeMappingSet:
@@ -3234,6 +3241,7 @@ class Reader:
         xml_child = child_elements.get('ERROR-REACTION-POLICY')
         if xml_child is not None:
             data["error_reaction_policy"] = ar_enum.xml_to_enum("ModeErrorReactionPolicy", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeErrorBehavior(**data)
 
     def _read_mode_transition(self, xml_element: ElementTree.Element) -> ar_element.ModeTransition:
@@ -3463,6 +3471,7 @@ class Reader:
         xml_child = child_elements.get("HANDLE-INVALID")
         if xml_child is not None:
             data["handle_invalid"] = ar_enum.xml_to_enum("HandleInvalid", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InvalidationPolicy(**data)
 
     def _read_application_error(self, xml_element: ElementTree.Element) -> ar_element.ApplicationError:
@@ -4513,6 +4522,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_p_operation_in_atomic_swc_instance_ref(self,
@@ -4590,6 +4600,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.RModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_r_operation_in_atomic_swc_instance_ref(self,
@@ -4900,6 +4911,7 @@ class Reader:
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExternalTriggeringPointIdent(**data)
 
     def _read_external_triggering_point(self, xml_element: ElementTree.Element) -> ar_element.ExternalTriggeringPoint:
@@ -5698,6 +5710,7 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExclusiveArea(**data)
 
     def _read_swc_internal_behavior(self, xml_element: ElementTree.Element) -> ar_element.SwcInternalBehavior:
-- 
2.43.0


From 6aeb3581b776bc5edc0ab190481179016c093126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 39/62] fix: report unread children of annotations and compu
 constants

---
 src/autosar/xml/reader.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index bde89b8..54cc75d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -717,9 +717,10 @@ class Reader:
         """
         Reads Group AR:GENERAL-ANNOTATION
         """
-        xml_label = xml_elem.find('./LABEL')
-        xml_origin = xml_elem.find('./ANNOTATION-ORIGIN')
-        xml_text = xml_elem.find('./ANNOTATION-TEXT')
+        child_elements = ChildElementMap(xml_elem)
+        xml_label = child_elements.get('LABEL')
+        xml_origin = child_elements.get('ANNOTATION-ORIGIN')
+        xml_text = child_elements.get('ANNOTATION-TEXT')
 
         if xml_label is not None:
             data['label'] = self._read_multi_language_long_name(xml_label)
@@ -727,6 +728,7 @@ class Reader:
             data['origin'] = xml_origin.text
         if xml_text is not None:
             data['text'] = self._read_documentation_block(xml_text)
+        self._report_unprocessed_elements(child_elements)
 
     def _read_break(self, xml_elem: ElementTree.Element) -> ar_element.Break:  # pylint: disable=unused-argument
         """
@@ -1278,8 +1280,10 @@ class Reader:
         Type: Concrete
         Tag variants: 'COMPU-CONST'
         """
-        v_xml = xml_element.find("V")
-        vt_xml = xml_element.find("VT")
+        child_elements = ChildElementMap(xml_element)
+        v_xml = child_elements.get("V")
+        vt_xml = child_elements.get("VT")
+        self._report_unprocessed_elements(child_elements)
         if (v_xml is not None) and (vt_xml is not None):
             raise ar_exception.ParseError("Can't define both V and VT"
                                           "in the same COMPU-CONST element")
-- 
2.43.0


From e4d28ad23a0b2110ac7375a1ed51557a17b08075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 40/62] fix: report unsupported kinds of ports, connectors,
 server call points and mode group references

---
 src/autosar/xml/reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 54cc75d..0374263 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4289,6 +4289,8 @@ class Reader:
                     ports.append(self._read_require_port_prototype(xml_grand_child))
                 elif xml_grand_child.tag == "PR-PORT-PROTOTYPE":
                     ports.append(self._read_pr_port_prototype(xml_grand_child))
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["ports"] = ports
         child_elements.skip("PORT_GROUPS")
         child_elements.skip("SWC-MAPPING-CONSTRAINT-REFS")
@@ -4475,6 +4477,8 @@ class Reader:
                     connector_list.append(self._read_delegation_sw_connector(xml_grand_child))
                 elif xml_grand_child.tag == "PASS-THROUGH-SW-CONNECTOR":
                     connector_list.append(self._read_pass_through_sw_connector(xml_grand_child))
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["connectors"] = connector_list
         child_elements.skip("CONSTANT-VALUE-MAPPING-REFS")
         child_elements.skip("DATA-TYPE-MAPPING-REFS")
@@ -4986,6 +4990,8 @@ class Reader:
                 data["mode_group"] = self._read_p_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
             elif xml_grand_child.tag == "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
                 data["mode_group"] = self._read_r_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
+            else:
+                self._report_unprocessed_element(xml_grand_child)
         child_elements.skip("VARIATION-POINT")
         self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPoint(**data)
@@ -5270,6 +5276,8 @@ class Reader:
                     server_call_points.append(self._read_async_server_call_point(xml_grand_child))
                 elif xml_grand_child.tag == "SYNCHRONOUS-SERVER-CALL-POINT":
                     server_call_points.append(self._read_sync_server_call_point(xml_grand_child))
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["server_call_point"] = server_call_points
         xml_child = child_elements.get("SYMBOL")
         if xml_child is not None:
-- 
2.43.0


From b1c3a96f3f1ded2ab7dc37b1c053f7290750794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 41/62] fix: report a stray MODE-GROUP-IREF in parameter
 instance references

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 0374263..800ab12 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -5035,7 +5035,6 @@ class Reader:
         xml_child = child_elements.get("TARGET-DATA-PROTOTYPE-REF")
         if xml_child is not None:
             data["target_data_prototype"] = self._read_data_prototype_ref(xml_child)
-        xml_child = child_elements.get("MODE-GROUP-IREF")
         child_elements.skip("VARIATION-POINT")
         self._report_unprocessed_elements(child_elements)
         return ar_element.ParameterInAtomicSwcTypeInstanceRef(**data)
-- 
2.43.0


From 1b88218a924b2d0e1b822e24f7a29dffa353e55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 42/62] fix: report special data other than SD

---
 src/autosar/xml/reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 800ab12..82e873b 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -568,8 +568,11 @@ class Reader:
         """
         group_key = xml_element.attrib['GID']
         special_data = {}
-        for xml_sd in xml_element.findall('./SD'):
-            special_data.update(self._read_admin_data_sd(xml_sd))
+        for xml_child in xml_element.findall('./*'):
+            if xml_child.tag == 'SD':
+                special_data.update(self._read_admin_data_sd(xml_child))
+            else:
+                self._report_unprocessed_element(xml_child)
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
-- 
2.43.0


From 4a2c5a0305c9d5e600bc533bdfe50ce377882d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 43/62] fix: report unread children of the document root

---
 src/autosar/xml/reader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 82e873b..b6fe2df 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -627,10 +627,15 @@ class Reader:
     # AUTOSAR Package
 
     def _read_packages(self):
-        for xml_node in self.xml_root.findall('./AR-PACKAGES/*'):
-            if xml_node.tag == 'AR-PACKAGE':
-                package = self._read_package(xml_node)
-                self.document.append(package)
+        child_elements = ChildElementMap(self.xml_root)
+        child_elements.skip('FILE-INFO-COMMENT')
+        xml_packages = child_elements.get('AR-PACKAGES')
+        if xml_packages is not None:
+            for xml_node in xml_packages.findall('./*'):
+                if xml_node.tag == 'AR-PACKAGE':
+                    package = self._read_package(xml_node)
+                    self.document.append(package)
+        self._report_unprocessed_elements(child_elements)
 
     def _read_package(self, elem: ElementTree.Element) -> ar_element.Package:
         data = {}
-- 
2.43.0


From df877934893ccefe55ef690b2b45b7894939b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 44/62] fix: report unsupported kinds of inner port references

---
 src/autosar/xml/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index b6fe2df..898d635 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4421,6 +4421,8 @@ class Reader:
             if xml_grand_child is not None and xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
                                                                        "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
                 data["inner_port"] = self._read_port_in_composition_type_instance_ref(xml_grand_child)
+            elif xml_grand_child is not None:
+                self._report_unprocessed_element(xml_grand_child)
         xml_child = child_elements.get("OUTER-PORT-REF")
         if xml_child is not None:
             data["outer_port"] = self._read_port_prototype_ref(xml_child)
-- 
2.43.0


From daee6047558df75ea0f886162c3ecdaa7ad21c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 45/62] fix: write nested packages of a document at their own
 path

---
 src/autosar/xml/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 34d78ee..115dce4 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -237,7 +237,10 @@ class Workspace(ar_element.PackageCollection):
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-                document.append(copy.copy(package))  # the package itself stays in the workspace
+                parent = document
+                if isinstance(package.parent, ar_element.Package):
+                    parent = document.make_packages(str(package.parent.ref()))
+                parent.append(copy.copy(package))  # the package itself stays in the workspace
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
-- 
2.43.0


From a371bfa197822eb134d60bcf4c7a72429ec0163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 46/62] fix: create a document without packages

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 115dce4..03b550e 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -28,7 +28,7 @@ class DocumentConfig:
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
-- 
2.43.0


From 10f01a07751875d2ab9da208a6c9afeff2ea75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 47/62] fix: write overlapping packages of a document once

---
 src/autosar/xml/workspace.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 03b550e..eb46a9a 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -232,15 +232,20 @@ class Workspace(ar_element.PackageCollection):
         document_config.document = document
         file_path = document_config.file_path
         package_refs = document_config.package_refs
+        packages: dict[str, ar_element.Package] = {}
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-                parent = document
-                if isinstance(package.parent, ar_element.Package):
-                    parent = document.make_packages(str(package.parent.ref()))
-                parent.append(copy.copy(package))  # the package itself stays in the workspace
+                packages[str(package.ref())] = package
+        for package_ref, package in packages.items():
+            if any(package_ref.startswith(outer_ref + "/") for outer_ref in packages):
+                continue  # written as part of the outer package
+            parent = document
+            if isinstance(package.parent, ar_element.Package):
+                parent = document.make_packages(str(package.parent.ref()))
+            parent.append(copy.copy(package))  # the package itself stays in the workspace
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
-- 
2.43.0


From b820c12e699e2994f4a72bd33ce477492a49eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 48/62] fix: model arrays with several dimensions

---
 src/autosar/model/implementation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..a8b34aa 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -163,7 +163,7 @@ class ImplementationModel:
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-            assert isinstance(xml_ref.array_size, int)
+            assert isinstance(ar_sub_elem.array_size, int)
             rte_sub_element = rte_element.ArrayTypeElement(xml_ref, ar_sub_elem.name, ar_sub_elem.array_size)
             data_type.sub_elements.insert(0, rte_sub_element)
         self.data_types[str(elem_ref)] = data_type
-- 
2.43.0


From 588d136ebccce8bba158c491ebd50768ad25a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 49/62] fix: generate every dimension of an array type

---
 src/autosar/generator/type_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..fc85d73 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -129,7 +129,9 @@ class TypeGenerator:
             target_type = C.type(last_element.data_type.impl_type.name)
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
-        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=last_element.array_size)))
+        # cfile puts the array argument between brackets, this also gives one pair of brackets per dimension
+        array_size = "][".join(str(element.array_size) for element in data_type.sub_elements)
+        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=array_size)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
-- 
2.43.0


From db3b494b496d589d899b44abd4a60f1572181ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 50/62] fix: convert array properties to the enumerations of
 the model

---
 src/autosar/model/implementation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index a8b34aa..a4599c3 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -155,11 +155,11 @@ class ImplementationModel:
         else:
             raise NotImplementedError(last_element.category)
         if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[last_element.array_impl_policy.name]
         if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[last_element.array_size_handling.name]
         if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[last_element.array_size_semantics.name]
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-- 
2.43.0


From 0eb4fe1a69a6ee95d4ba97911d8ce0b31a43a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 51/62] fix: keep the type emitter of type references

---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index a4599c3..d873f68 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -137,7 +137,11 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref),
+                                       element.name,
+                                       impl_type,
+                                       symbol,
+                                       type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From 4a86576d9c14961c56d8bda825de2904722928bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 52/62] fix: only use extern "C" in C++

---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index fc85d73..d574f1b 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From a216b27b42bcf92b7c41eacaf2251d33d59b07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 53/62] fix: treat every requested data type as a source

---
 src/autosar/model/implementation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index d873f68..801a9c9 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -49,11 +49,18 @@ class ImplementationModel:
         """
         Creates new application element from xml-based element
         """
+        data_type = self._get_or_create_data_type(element)
+        if is_source:
+            self.source_type_refs.add(data_type.ref)
+        return data_type
+
+    def _get_or_create_data_type(self, element: ar_element.ARElement) -> Any:
+        """
+        Creates new application element from xml-based element unless it has been created before
+        """
         elem_ref = element.ref()
 
         if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
             if isinstance(element, ar_element.SwBaseType):
                 return self._create_base_type(element)
             elif isinstance(element, ar_element.ImplementationDataType):
-- 
2.43.0


From 939b9765177b648e38fd72e57ed8937d05032725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 54/62] fix: find the only parameter of a parameter interface
 when creating port access

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 263bf2c..f51e5b8 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6903,7 +6903,7 @@ class RunnableEntity(ExecutableEntity):
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
-- 
2.43.0


From 668acc31f7d4ca849f847a5798fea0bb77d5f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 55/62] fix: leave the caller's argument dictionary unchanged
 when creating port access

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f51e5b8..39a1d30 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6710,6 +6710,8 @@ class RunnableEntity(ExecutableEntity):
         for elem in elements:
             if isinstance(elem, tuple):
                 text, access_point_args = elem
+                if access_point_args is not None:
+                    access_point_args = dict(access_point_args)  # The caller's dictionary is left as it is
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
-- 
2.43.0


From c88758677f40a264e1c5a54ae312951c0049998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 56/62] fix: do not rename an element to a name that is already
 taken

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 39a1d30..5973e5e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -330,7 +330,7 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
             highest_index = max(highest_index, index)
         elif element.name == base_name:
             unpatched_elem = element
-    if unpatched_elem is not None:
+    if unpatched_elem is not None and not any(elem.name == base_name + '_0' for elem in elements):
         unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
-- 
2.43.0


From a8b022a6a726ba1887a039fec9059687bfe4cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 57/62] fix: give appended access points their unique name

---
 src/autosar/xml/element.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 5973e5e..4c42cdd 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6991,7 +6991,7 @@ class RunnableEntity(ExecutableEntity):
         A server call result point allows a runnable to fetch the result of an asynchronous server call.
         """
         if isinstance(result_point, AsynchronousServerCallResultPoint):
-            make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
+            result_point.name = make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
             self.async_server_call_result_point.append(result_point)
             result_point.parent = self
         else:
@@ -7003,7 +7003,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit read access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_read_access, element.name)
+            element.name = make_unique_name_in_list(self.data_read_access, element.name)
             self.data_read_access.append(element)
             element.parent = self
         else:
@@ -7015,7 +7015,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of an argument in the function signature.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
+            element.name = make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
             self.data_receive_point_by_argument.append(element)
             element.parent = self
         else:
@@ -7027,7 +7027,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of the return value.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_value, element.name)
+            element.name = make_unique_name_in_list(self.data_receive_point_by_value, element.name)
             self.data_receive_point_by_value.append(element)
             element.parent = self
         else:
@@ -7038,7 +7038,7 @@ class RunnableEntity(ExecutableEntity):
         Explicit write access to data element of a sender-receiver port or nv-data.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_send_point, element.name)
+            element.name = make_unique_name_in_list(self.data_send_point, element.name)
             self.data_send_point.append(element)
             element.parent = self
         else:
@@ -7049,7 +7049,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit write access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_write_access, element.name)
+            element.name = make_unique_name_in_list(self.data_write_access, element.name)
             self.data_write_access.append(element)
             element.parent = self
         else:
@@ -7071,7 +7071,7 @@ class RunnableEntity(ExecutableEntity):
         Internal triggering point
         """
         if isinstance(element, InternalTriggeringPoint):
-            make_unique_name_in_list(self.internal_triggering_point, element.name)
+            element.name = make_unique_name_in_list(self.internal_triggering_point, element.name)
             self.internal_triggering_point.append(element)
             element.parent = self
         else:
@@ -7093,7 +7093,7 @@ class RunnableEntity(ExecutableEntity):
         Mode switch point
         """
         if isinstance(element, ModeSwitchPoint):
-            make_unique_name_in_list(self.mode_switch_point, element.name)
+            element.name = make_unique_name_in_list(self.mode_switch_point, element.name)
             self.mode_switch_point.append(element)
             element.parent = self
         else:
@@ -7104,7 +7104,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to parameter which may either be local or within a PortPrototype.
         """
         if isinstance(element, ParameterAccess):
-            make_unique_name_in_list(self.parameter_access, element.name)
+            element.name = make_unique_name_in_list(self.parameter_access, element.name)
             self.parameter_access.append(element)
             element.parent = self
         else:
@@ -7115,7 +7115,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to a local variable in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.read_local_variable, element.name)
+            element.name = make_unique_name_in_list(self.read_local_variable, element.name)
             self.read_local_variable.append(element)
             element.parent = self
         else:
@@ -7126,7 +7126,7 @@ class RunnableEntity(ExecutableEntity):
         Write access to a local varaible in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.write_local_variable, element.name)
+            element.name = make_unique_name_in_list(self.write_local_variable, element.name)
             self.write_local_variable.append(element)
             element.parent = self
         else:
@@ -7137,7 +7137,7 @@ class RunnableEntity(ExecutableEntity):
         Access to call a server operation of a client-server port.
         """
         if isinstance(element, ServerCallPoint):
-            make_unique_name_in_list(self.server_call_point, element.name)
+            element.name = make_unique_name_in_list(self.server_call_point, element.name)
             self.server_call_point.append(element)
             element.parent = self
         else:
@@ -7149,7 +7149,7 @@ class RunnableEntity(ExecutableEntity):
         WaitPoint associated with the RunnableEntity
         """
         if isinstance(element, WaitPoint):
-            make_unique_name_in_list(self.wait_point, element.name)
+            element.name = make_unique_name_in_list(self.wait_point, element.name)
             self.wait_point.append(element)
             element.parent = self
         else:
-- 
2.43.0


From 2f53212607feae7816bd1e3c0ea2441a5b1face0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 58/62] fix: report the unknown component when creating a
 connector

---
 src/autosar/xml/element.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 4c42cdd..93ae5c3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5526,6 +5526,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                             msg = f"Component '{component.name}' does not seem to have a port with name '{port_name}'"
                             raise ValueError(msg)
                         return port, elem
+                raise ValueError(f"Composition '{self.name}' does not have a component with name '{parts[0]}'")
             else:
                 raise ValueError(f"Invalid format: '{port_ref}'")
         else:  # Format is 'port_name'
-- 
2.43.0


From cb214f207ff6a9b9071fcbc9c120f032cffe545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 59/62] fix: pass-through connector provides the provide-port
 in whichever order the ports are given

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 93ae5c3..d518286 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5477,6 +5477,8 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
+            if isinstance(port1, RequirePortPrototype) and isinstance(port2, ProvidePortPrototype):
+                port1, port2 = port2, port1
             return self._create_pass_through_connector(port1, port2)
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
-- 
2.43.0


From 49a5586cf295f81a54213443e39f9594b231961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 60/62] fix: refuse port access which the port does not allow

A mode switch through a require-port, mode access through a
provide-require-port and a server call through a provide-port
were silently ignored.
---
 src/autosar/xml/element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d518286..23c55f7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6876,6 +6876,8 @@ class RunnableEntity(ExecutableEntity):
                     name = "_".join([settings.get_value("mode_access_point_prefix"), port.name, mode_group.name])
                 ident = ModeAccessPointIdent.make_with_args(name, access_point_args)
                 access_point = ModeAccessPoint(ident=ident, mode_group=mode_group_iref)
+            else:
+                raise ValueError(f"Port '{port.name}' cannot switch modes, it is a require-port")
         elif isinstance(port, ProvidePortPrototype):
             mode_group_iref = PModeGroupInAtomicSwcInstanceRef(port.ref(), mode_group.ref())
             if access_type is None:
@@ -6893,6 +6895,8 @@ class RunnableEntity(ExecutableEntity):
                 else:
                     switch_point = ModeSwitchPoint(name, mode_group_iref)
                 self.append_mode_switch_point(switch_point)
+        else:
+            raise TypeError(f"Type not supported: {str(type(port))}")
         if access_point:
             self.append_mode_access_point(access_point)
 
@@ -6977,6 +6981,8 @@ class RunnableEntity(ExecutableEntity):
                     access_point = SynchronousServerCallPoint(name, operation=operation_iref)
             if access_point:
                 self.append_server_call_point(access_point)
+        else:
+            raise TypeError(f"Type not supported: {str(type(port))}")
 
     def append_argument(self, argument: RunnableEntityArgument) -> None:
         """
-- 
2.43.0


From 66c1ec9fd99834f6f6bf4520c94755e77c585b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:04 +0000
Subject: [PATCH 61/62] fix: name the unknown elements when a receiver or
 client com-spec is refused

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 23c55f7..61bc1f2 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4435,7 +4435,7 @@ class RequirePortComSpec(ARObject):
                                                                              **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    element_names = ', '.join(list[unprocessed])
+                    element_names = ', '.join(list(unprocessed))
                     msg = f"{port_interface.name}: Data element(s) not found in port interface: '{element_names}'"
                     raise ValueError(msg)
                 return com_spec_list
@@ -4458,7 +4458,7 @@ class RequirePortComSpec(ARObject):
                         com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    operations = ', '.join(list[unprocessed])
+                    operations = ', '.join(list(unprocessed))
                     raise ValueError(f"{port_interface.name}: Operation(s) not found in port interface: '{operations}'")
                 return com_spec_list
         elif isinstance(port_interface, ModeSwitchInterface):
-- 
2.43.0


From f6b68ddc05476096ab85c83b86a014a3f7b6f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:23 +0000
Subject: [PATCH 62/62] fix: keep a single com-spec given when a port is
 created

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 61bc1f2..f44f17a 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4985,7 +4985,7 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
+            elif not isinstance(com_spec, ProvidePortComSpec):
                 com_spec = None  # Clear when not implemented
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
         self.append_port(port)
@@ -5034,7 +5034,7 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
+            elif not isinstance(com_spec, RequirePortComSpec):
                 com_spec = None  # Clear when not implemented
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
-- 
2.43.0

