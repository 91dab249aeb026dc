// Code generated by tools/gen_spec.py; DO NOT EDIT.

package spec

import (
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// Msgs are the OCPP messages.
var Msgs = []Msg{
	{Action: "Authorize", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.Authorize{} }, NewResp: func() messages.Response { return &cpresp.Authorize{} },
		Req:   []Field{{Name: "idTag", Go: "IdTag", Type: "string", Req: true}},
		Resp:  []Field{{Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Req: true, Sub: []Field{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}}}},
		XReq:  []XField{{Name: "idTag", Go: "IdTag", Type: "string", Req: true}},
		XResp: []XField{{Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Req: true, Sub: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}}}}},
	{Action: "BootNotification", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.BootNotification{} }, NewResp: func() messages.Response { return &cpresp.BootNotification{} },
		Req:   []Field{{Name: "chargePointVendor", Go: "ChargePointVendor", Type: "string", Req: true}, {Name: "chargePointModel", Go: "ChargePointModel", Type: "string", Req: true}, {Name: "chargePointSerialNumber", Go: "ChargePointSerialNumber", Type: "string"}, {Name: "chargeBoxSerialNumber", Go: "ChargeBoxSerialNumber", Type: "string"}, {Name: "firmwareVersion", Go: "FirmwareVersion", Type: "string"}, {Name: "iccid", Go: "Iccid", Type: "string"}, {Name: "imsi", Go: "Imsi", Type: "string"}, {Name: "meterType", Go: "MeterType", Type: "string"}, {Name: "meterSerialNumber", Go: "MeterSerialNumber", Type: "string"}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "currentTime", Go: "CurrentTime", Type: "time", Req: true}, {Name: "interval", Go: "Interval", Type: "number", Req: true}},
		XReq:  []XField{{Name: "chargePointVendor", Go: "ChargePointVendor", Type: "string", Req: true}, {Name: "chargePointModel", Go: "ChargePointModel", Type: "string", Req: true}, {Name: "chargePointSerialNumber", Go: "ChargePointSerialNumber", Type: "string"}, {Name: "chargeBoxSerialNumber", Go: "ChargeBoxSerialNumber", Type: "string"}, {Name: "firmwareVersion", Go: "FirmwareVersion", Type: "string"}, {Name: "iccid", Go: "Iccid", Type: "string"}, {Name: "imsi", Go: "Imsi", Type: "string"}, {Name: "meterType", Go: "MeterType", Type: "string"}, {Name: "meterSerialNumber", Go: "MeterSerialNumber", Type: "string"}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "currentTime", Go: "CurrentTime", Type: "time", Req: true}, {Name: "heartbeatInterval", Go: "Interval", Type: "integer", Req: true}}},
	{Action: "DataTransfer", FromCP: true, V15: true, Table: false,
		New: func() messages.Request { return &cpreq.DataTransfer{} }, NewResp: func() messages.Response { return &cpresp.DataTransfer{} },
		Req:   []Field{{Name: "vendorId", Go: "VendorId", Type: "string", Req: true}, {Name: "messageId", Go: "MessageId", Type: "string"}, {Name: "data", Go: "Data", Type: "string"}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "data", Go: "Data", Type: "string"}},
		XReq:  []XField{{Name: "vendorId", Go: "VendorId", Type: "string", Req: true}, {Name: "messageId", Go: "MessageId", Type: "string"}, {Name: "data", Go: "Data", Type: "string"}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "data", Go: "Data", Type: "string"}}},
	{Action: "DiagnosticsStatusNotification", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.DiagnosticsStatusNotification{} }, NewResp: func() messages.Response { return &cpresp.DiagnosticsStatusNotification{} },
		Req:   []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		Resp:  []Field{},
		XReq:  []XField{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XResp: []XField{}},
	{Action: "FirmwareStatusNotification", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.FirmwareStatusNotification{} }, NewResp: func() messages.Response { return &cpresp.FirmwareStatusNotification{} },
		Req:   []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		Resp:  []Field{},
		XReq:  []XField{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XResp: []XField{}},
	{Action: "Heartbeat", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.Heartbeat{} }, NewResp: func() messages.Response { return &cpresp.Heartbeat{} },
		Req:   []Field{},
		Resp:  []Field{{Name: "currentTime", Go: "CurrentTime", Type: "time", Req: true}},
		XReq:  []XField{},
		XResp: []XField{{Name: "currentTime", Go: "CurrentTime", Type: "time", Req: true}}},
	{Action: "MeterValues", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.MeterValues{} }, NewResp: func() messages.Response { return &cpresp.MeterValues{} },
		Req:   []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "transactionId", Go: "TransactionId", Type: "integer"}, {Name: "meterValue", Go: "MeterValue", Type: "objects", Req: true, Sub: []Field{{Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}, {Name: "sampledValue", Go: "SampledValues", Type: "objects", Req: true, Sub: []Field{{Name: "value", Go: "Value", Type: "string", Req: true}, {Name: "context", Go: "Context", Type: "string"}, {Name: "format", Go: "Format", Type: "string"}, {Name: "measurand", Go: "Measurand", Type: "string"}, {Name: "phase", Go: "Phase", Type: "string"}, {Name: "location", Go: "Location", Type: "string"}, {Name: "unit", Go: "Unit", Type: "string"}}}}}},
		Resp:  []Field{},
		XReq:  []XField{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "transactionId", Go: "TransactionId", Type: "integer"}, {Name: "values", Go: "MeterValue", Type: "object", Many: true, Sub: []XField{{Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}, {Name: "value", Go: "SampledValues", Type: "object", Req: true, Many: true, Sub: []XField{{Name: "", Go: "Value", Type: "string", Req: true, Text: true}, {Name: "context", Go: "Context", Type: "string", Attr: true}, {Name: "format", Go: "Format", Type: "string", Attr: true}, {Name: "measurand", Go: "Measurand", Type: "string", Attr: true}, {Name: "location", Go: "Location", Type: "string", Attr: true}, {Name: "unit", Go: "Unit", Type: "string", Attr: true}}}}}},
		XResp: []XField{}},
	{Action: "StartTransaction", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.StartTransaction{} }, NewResp: func() messages.Response { return &cpresp.StartTransaction{} },
		Req:   []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "meterStart", Go: "MeterStart", Type: "integer", Req: true}, {Name: "reservationId", Go: "ReservationId", Type: "integer"}, {Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}},
		Resp:  []Field{{Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Req: true, Sub: []Field{{Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}, {Name: "status", Go: "Status", Type: "string", Req: true}}}, {Name: "transactionId", Go: "TransactionId", Type: "integer", Req: true}},
		XReq:  []XField{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}, {Name: "meterStart", Go: "MeterStart", Type: "integer", Req: true}, {Name: "reservationId", Go: "ReservationId", Type: "integer"}},
		XResp: []XField{{Name: "transactionId", Go: "TransactionId", Type: "integer", Req: true}, {Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Req: true, Sub: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}}}}},
	{Action: "StatusNotification", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.StatusNotification{} }, NewResp: func() messages.Response { return &cpresp.StatusNotification{} },
		Req:   []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "errorCode", Go: "ErrorCode", Type: "string", Req: true}, {Name: "info", Go: "Info", Type: "string"}, {Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "timestamp", Go: "Timestamp", Type: "time"}, {Name: "vendorId", Go: "VendorId", Type: "string"}, {Name: "vendorErrorCode", Go: "VendorErrorCode", Type: "string"}},
		Resp:  []Field{},
		XReq:  []XField{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "errorCode", Go: "ErrorCode", Type: "string", Req: true}, {Name: "info", Go: "Info", Type: "string"}, {Name: "timestamp", Go: "Timestamp", Type: "time"}, {Name: "vendorId", Go: "VendorId", Type: "string"}, {Name: "vendorErrorCode", Go: "VendorErrorCode", Type: "string"}},
		XResp: []XField{}},
	{Action: "StopTransaction", FromCP: true, V15: true, Table: true,
		New: func() messages.Request { return &cpreq.StopTransaction{} }, NewResp: func() messages.Response { return &cpresp.StopTransaction{} },
		Req:   []Field{{Name: "idTag", Go: "IdTag", Type: "string"}, {Name: "meterStop", Go: "MeterStop", Type: "integer", Req: true}, {Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}, {Name: "transactionId", Go: "TransactionId", Type: "integer", Req: true}, {Name: "reason", Go: "Reason", Type: "string"}, {Name: "transactionData", Go: "TransactionData", Type: "objects", Sub: []Field{{Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}, {Name: "sampledValue", Go: "SampledValues", Type: "objects", Req: true, Sub: []Field{{Name: "value", Go: "Value", Type: "string", Req: true}, {Name: "context", Go: "Context", Type: "string"}, {Name: "format", Go: "Format", Type: "string"}, {Name: "measurand", Go: "Measurand", Type: "string"}, {Name: "phase", Go: "Phase", Type: "string"}, {Name: "location", Go: "Location", Type: "string"}, {Name: "unit", Go: "Unit", Type: "string"}}}}}},
		Resp:  []Field{{Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Sub: []Field{{Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}, {Name: "status", Go: "Status", Type: "string", Req: true}}}},
		XReq:  []XField{{Name: "transactionId", Go: "TransactionId", Type: "integer", Req: true}, {Name: "idTag", Go: "IdTag", Type: "string"}, {Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}, {Name: "meterStop", Go: "MeterStop", Type: "integer", Req: true}, {Name: "transactionData", Go: "TransactionData", Type: "group", Many: true, Sub: []XField{{Name: "values", Go: "TransactionData", Type: "object", Many: true, Sub: []XField{{Name: "timestamp", Go: "Timestamp", Type: "time", Req: true}, {Name: "value", Go: "SampledValues", Type: "object", Req: true, Many: true, Sub: []XField{{Name: "", Go: "Value", Type: "string", Req: true, Text: true}, {Name: "context", Go: "Context", Type: "string", Attr: true}, {Name: "format", Go: "Format", Type: "string", Attr: true}, {Name: "measurand", Go: "Measurand", Type: "string", Attr: true}, {Name: "location", Go: "Location", Type: "string", Attr: true}, {Name: "unit", Go: "Unit", Type: "string", Attr: true}}}}}}}},
		XResp: []XField{{Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Sub: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}}}}},
	{Action: "CancelReservation", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.CancelReservation{} }, NewResp: func() messages.Response { return &csresp.CancelReservation{} },
		Req:   []Field{{Name: "reservationId", Go: "ReservationId", Type: "integer", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "reservationId", Go: "ReservationId", Type: "integer", Req: true}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "ChangeAvailability", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.ChangeAvailability{} }, NewResp: func() messages.Response { return &csresp.ChangeAvailability{} },
		Req:   []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "type", Go: "Type", Type: "string", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "type", Go: "Type", Type: "string", Req: true}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "ChangeConfiguration", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.ChangeConfiguration{} }, NewResp: func() messages.Response { return &csresp.ChangeConfiguration{} },
		Req:   []Field{{Name: "key", Go: "Key", Type: "string", Req: true}, {Name: "value", Go: "Value", Type: "string", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "key", Go: "Key", Type: "string", Req: true}, {Name: "value", Go: "Value", Type: "string", Req: true}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "ClearCache", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.ClearCache{} }, NewResp: func() messages.Response { return &csresp.ClearCache{} },
		Req:   []Field{},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "ClearChargingProfile", FromCP: false, V15: false, Table: true,
		New: func() messages.Request { return &csreq.ClearChargingProfile{} }, NewResp: func() messages.Response { return &csresp.ClearChargingProfile{} },
		Req:  []Field{{Name: "id", Go: "Id", Type: "integer"}, {Name: "connectorId", Go: "ConnectorId", Type: "integer"}, {Name: "chargingProfilePurpose", Go: "ChargingProfilePurpose", Type: "string"}, {Name: "stackLevel", Go: "StackLevel", Type: "integer"}},
		Resp: []Field{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "DataTransfer", FromCP: false, V15: true, Table: false,
		New: func() messages.Request { return &csreq.DataTransfer{} }, NewResp: func() messages.Response { return &csresp.DataTransfer{} },
		Req:   []Field{{Name: "vendorId", Go: "VendorId", Type: "string", Req: true}, {Name: "messageId", Go: "MessageId", Type: "string"}, {Name: "data", Go: "Data", Type: "string"}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "data", Go: "Data", Type: "string"}},
		XReq:  []XField{{Name: "vendorId", Go: "VendorId", Type: "string", Req: true}, {Name: "messageId", Go: "MessageId", Type: "string"}, {Name: "data", Go: "Data", Type: "string"}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "data", Go: "Data", Type: "string"}}},
	{Action: "GetCompositeSchedule", FromCP: false, V15: false, Table: true,
		New: func() messages.Request { return &csreq.GetCompositeSchedule{} }, NewResp: func() messages.Response { return &csresp.GetCompositeSchedule{} },
		Req:  []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "duration", Go: "Duration", Type: "integer", Req: true}, {Name: "chargingRateUnit", Go: "ChargingRateUnit", Type: "string"}},
		Resp: []Field{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "connectorId", Go: "ConnectorId", Type: "integer"}, {Name: "scheduleStart", Go: "ScheduleStart", Type: "time"}, {Name: "chargingSchedule", Go: "ChargingSchedule", Type: "object", Sub: []Field{{Name: "duration", Go: "Duration", Type: "integer"}, {Name: "startSchedule", Go: "StartSchedule", Type: "time"}, {Name: "chargingRateUnit", Go: "ChargingRateUnit", Type: "string", Req: true}, {Name: "chargingSchedulePeriod", Go: "ChargingSchedulePeriod", Type: "objects", Req: true, Sub: []Field{{Name: "startPeriod", Go: "StartPeriod", Type: "integer", Req: true}, {Name: "limit", Go: "Limit", Type: "number", Req: true}, {Name: "numberPhases", Go: "NumberPhases", Type: "integer"}}}, {Name: "minChargingRate", Go: "MinChargingRate", Type: "number"}}}}},
	{Action: "GetConfiguration", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.GetConfiguration{} }, NewResp: func() messages.Response { return &csresp.GetConfiguration{} },
		Req:   []Field{{Name: "key", Go: "Key", Type: "strings"}},
		Resp:  []Field{{Name: "configurationKey", Go: "ConfigurationKey", Type: "objects", Sub: []Field{{Name: "key", Go: "Key", Type: "string", Req: true}, {Name: "readonly", Go: "Readonly", Type: "boolean", Req: true}, {Name: "value", Go: "Value", Type: "string"}}}, {Name: "unknownKey", Go: "UnknownKey", Type: "strings"}},
		XReq:  []XField{{Name: "key", Go: "Key", Type: "string", Many: true}},
		XResp: []XField{{Name: "configurationKey", Go: "ConfigurationKey", Type: "object", Many: true, Sub: []XField{{Name: "key", Go: "Key", Type: "string", Req: true}, {Name: "readonly", Go: "Readonly", Type: "boolean", Req: true}, {Name: "value", Go: "Value", Type: "string"}}}, {Name: "unknownKey", Go: "UnknownKey", Type: "string", Many: true}}},
	{Action: "GetDiagnostics", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.GetDiagnostics{} }, NewResp: func() messages.Response { return &csresp.GetDiagnostics{} },
		Req:   []Field{{Name: "location", Go: "Location", Type: "string", Req: true}, {Name: "retries", Go: "Retries", Type: "integer"}, {Name: "retryInterval", Go: "RetryInterval", Type: "integer"}, {Name: "startTime", Go: "StartTime", Type: "time"}, {Name: "stopTime", Go: "StopTime", Type: "time"}},
		Resp:  []Field{{Name: "fileName", Go: "FileName", Type: "string"}},
		XReq:  []XField{{Name: "location", Go: "Location", Type: "string", Req: true}, {Name: "startTime", Go: "StartTime", Type: "time"}, {Name: "stopTime", Go: "StopTime", Type: "time"}, {Name: "retries", Go: "Retries", Type: "integer"}, {Name: "retryInterval", Go: "RetryInterval", Type: "integer"}},
		XResp: []XField{{Name: "fileName", Go: "FileName", Type: "string"}}},
	{Action: "GetLocalListVersion", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.GetLocalListVersion{} }, NewResp: func() messages.Response { return &csresp.GetLocalListVersion{} },
		Req:   []Field{},
		Resp:  []Field{{Name: "listVersion", Go: "ListVersion", Type: "integer", Req: true}},
		XReq:  []XField{},
		XResp: []XField{{Name: "listVersion", Go: "ListVersion", Type: "integer", Req: true}}},
	{Action: "RemoteStartTransaction", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.RemoteStartTransaction{} }, NewResp: func() messages.Response { return &csresp.RemoteStartTransaction{} },
		Req:   []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer"}, {Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "chargingProfile", Go: "ChargingProfile", Type: "object", Sub: []Field{{Name: "chargingProfileId", Go: "ChargingProfileId", Type: "integer", Req: true}, {Name: "transactionId", Go: "TransactionId", Type: "integer"}, {Name: "stackLevel", Go: "StackLevel", Type: "integer", Req: true}, {Name: "chargingProfilePurpose", Go: "ChargingProfilePurpose", Type: "string", Req: true}, {Name: "chargingProfileKind", Go: "ChargingProfileKind", Type: "string", Req: true}, {Name: "recurrencyKind", Go: "RecurrencyKind", Type: "string"}, {Name: "validFrom", Go: "ValidFrom", Type: "time"}, {Name: "validTo", Go: "ValidTo", Type: "time"}, {Name: "chargingSchedule", Go: "ChargingSchedule", Type: "object", Req: true, Sub: []Field{{Name: "duration", Go: "Duration", Type: "integer"}, {Name: "startSchedule", Go: "StartSchedule", Type: "time"}, {Name: "chargingRateUnit", Go: "ChargingRateUnit", Type: "string", Req: true}, {Name: "chargingSchedulePeriod", Go: "ChargingSchedulePeriod", Type: "objects", Req: true, Sub: []Field{{Name: "startPeriod", Go: "StartPeriod", Type: "integer", Req: true}, {Name: "limit", Go: "Limit", Type: "number", Req: true}, {Name: "numberPhases", Go: "NumberPhases", Type: "integer"}}}, {Name: "minChargingRate", Go: "MinChargingRate", Type: "number"}}}}}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "connectorId", Go: "ConnectorId", Type: "integer"}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "RemoteStopTransaction", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.RemoteStopTransaction{} }, NewResp: func() messages.Response { return &csresp.RemoteStopTransaction{} },
		Req:   []Field{{Name: "transactionId", Go: "TransactionId", Type: "integer", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "transactionId", Go: "TransactionId", Type: "integer", Req: true}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "ReserveNow", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.ReserveNow{} }, NewResp: func() messages.Response { return &csresp.ReserveNow{} },
		Req:   []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time", Req: true}, {Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}, {Name: "reservationId", Go: "ReservationId", Type: "integer", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time", Req: true}, {Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}, {Name: "reservationId", Go: "ReservationId", Type: "integer", Req: true}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "Reset", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.Reset{} }, NewResp: func() messages.Response { return &csresp.Reset{} },
		Req:   []Field{{Name: "type", Go: "Type", Type: "string", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "type", Go: "Type", Type: "string", Req: true}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "SendLocalList", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.SendLocalList{} }, NewResp: func() messages.Response { return &csresp.SendLocalList{} },
		Req:   []Field{{Name: "listVersion", Go: "ListVersion", Type: "integer", Req: true}, {Name: "localAuthorizationList", Go: "LocalAuthorizationList", Type: "objects", Sub: []Field{{Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Sub: []Field{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}}}}}, {Name: "updateType", Go: "UpdateType", Type: "string", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "updateType", Go: "UpdateType", Type: "string", Req: true}, {Name: "listVersion", Go: "ListVersion", Type: "integer", Req: true}, {Name: "localAuthorisationList", Go: "LocalAuthorizationList", Type: "object", Many: true, Sub: []XField{{Name: "idTag", Go: "IdTag", Type: "string", Req: true}, {Name: "idTagInfo", Go: "IdTagInfo", Type: "object", Sub: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "expiryDate", Go: "ExpiryDate", Type: "time"}, {Name: "parentIdTag", Go: "ParentIdTag", Type: "string"}}}}}, {Name: "hash", Go: "", Type: "string"}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}, {Name: "hash", Go: "", Type: "string"}}},
	{Action: "SetChargingProfile", FromCP: false, V15: false, Table: true,
		New: func() messages.Request { return &csreq.SetChargingProfile{} }, NewResp: func() messages.Response { return &csresp.SetChargingProfile{} },
		Req:  []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}, {Name: "csChargingProfiles", Go: "CsChargingProfiles", Type: "object", Req: true, Sub: []Field{{Name: "chargingProfileId", Go: "ChargingProfileId", Type: "integer", Req: true}, {Name: "transactionId", Go: "TransactionId", Type: "integer"}, {Name: "stackLevel", Go: "StackLevel", Type: "integer", Req: true}, {Name: "chargingProfilePurpose", Go: "ChargingProfilePurpose", Type: "string", Req: true}, {Name: "chargingProfileKind", Go: "ChargingProfileKind", Type: "string", Req: true}, {Name: "recurrencyKind", Go: "RecurrencyKind", Type: "string"}, {Name: "validFrom", Go: "ValidFrom", Type: "time"}, {Name: "validTo", Go: "ValidTo", Type: "time"}, {Name: "chargingSchedule", Go: "ChargingSchedule", Type: "object", Req: true, Sub: []Field{{Name: "duration", Go: "Duration", Type: "integer"}, {Name: "startSchedule", Go: "StartSchedule", Type: "time"}, {Name: "chargingRateUnit", Go: "ChargingRateUnit", Type: "string", Req: true}, {Name: "chargingSchedulePeriod", Go: "ChargingSchedulePeriod", Type: "objects", Req: true, Sub: []Field{{Name: "startPeriod", Go: "StartPeriod", Type: "integer", Req: true}, {Name: "limit", Go: "Limit", Type: "number", Req: true}, {Name: "numberPhases", Go: "NumberPhases", Type: "integer"}}}, {Name: "minChargingRate", Go: "MinChargingRate", Type: "number"}}}}}},
		Resp: []Field{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "TriggerMessage", FromCP: false, V15: false, Table: true,
		New: func() messages.Request { return &csreq.TriggerMessage{} }, NewResp: func() messages.Response { return &csresp.TriggerMessage{} },
		Req:  []Field{{Name: "requestedMessage", Go: "RequestedMessage", Type: "string", Req: true}, {Name: "connectorId", Go: "ConnectorId", Type: "integer"}},
		Resp: []Field{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "UnlockConnector", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.UnlockConnector{} }, NewResp: func() messages.Response { return &csresp.UnlockConnector{} },
		Req:   []Field{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}},
		Resp:  []Field{{Name: "status", Go: "Status", Type: "string", Req: true}},
		XReq:  []XField{{Name: "connectorId", Go: "ConnectorId", Type: "integer", Req: true}},
		XResp: []XField{{Name: "status", Go: "Status", Type: "string", Req: true}}},
	{Action: "UpdateFirmware", FromCP: false, V15: true, Table: true,
		New: func() messages.Request { return &csreq.UpdateFirmware{} }, NewResp: func() messages.Response { return &csresp.UpdateFirmware{} },
		Req:   []Field{{Name: "location", Go: "Location", Type: "string", Req: true}, {Name: "retries", Go: "Retries", Type: "number"}, {Name: "retrieveDate", Go: "RetrieveDate", Type: "time", Req: true}, {Name: "retryInterval", Go: "RetryInterval", Type: "number"}},
		Resp:  []Field{},
		XReq:  []XField{{Name: "retrieveDate", Go: "RetrieveDate", Type: "time", Req: true}, {Name: "location", Go: "Location", Type: "string", Req: true}, {Name: "retries", Go: "Retries", Type: "integer"}, {Name: "retryInterval", Go: "RetryInterval", Type: "integer"}},
		XResp: []XField{}},
}
