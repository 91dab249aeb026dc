#!/usr/bin/env python3
"""Writes harness/spec/tables.go from the OCPP 1.6 JSON schemas and the 1.5 WSDLs shipped in the repository (a committed snapshot:
the checks never read the schemas of the tree under test)."""
import json,glob,os,sys,re
R=sys.argv[1] if len(sys.argv)>1 else '/repo'
CP=["Authorize","BootNotification","DataTransfer","DiagnosticsStatusNotification","FirmwareStatusNotification","Heartbeat","MeterValues","StartTransaction","StatusNotification","StopTransaction"]
CS=["CancelReservation","ChangeAvailability","ChangeConfiguration","ClearCache","ClearChargingProfile","DataTransfer","GetCompositeSchedule","GetConfiguration","GetDiagnostics","GetLocalListVersion","RemoteStartTransaction","RemoteStopTransaction","ReserveNow","Reset","SendLocalList","SetChargingProfile","TriggerMessage","UnlockConnector","UpdateFirmware"]
NOT15={"ClearChargingProfile","GetCompositeSchedule","SetChargingProfile","TriggerMessage"}
def goname(k): return {'sampledValue':'SampledValues'}.get(k,k[0].upper()+k[1:])
def fields(s):
    out=[]
    for k,v in s.get('properties',{}).items():
        t=v.get('type'); sub=None
        if t=='string' and v.get('format')=='date-time': t='time'
        if t=='object': sub=fields(v)
        if t=='array':
            if v['items'].get('type')=='object': t='objects'; sub=fields(v['items'])
            else: t='strings'
        if k=='idTagInfo':
            # the shipped SendLocalList schema misplaces two properties
            have={x[0] for x in sub}
            for n,ty in (('expiryDate','time'),('parentIdTag','string')):
                if n not in have: sub.append((n,goname(n),ty,False,None))
        out.append((k,goname(k),t,k in s.get('required',[]),sub))
    return out
def emit(fs):
    r='[]Field{'
    for k,g,t,q,sub in fs:
        r+='{Name: "%s", Go: "%s", Type: "%s"'%(k,g,t)
        if q: r+=', Req: true'
        if sub: r+=', Sub: '+emit(sub)
        r+='}, '
    return r.rstrip(', ')+'}'
import xml.etree.ElementTree as ET
XS='{http://www.w3.org/2001/XMLSchema}'
GO={'heartbeatInterval':'Interval','localAuthorisationList':'LocalAuthorizationList','value@MeterValue':'SampledValues','values@MeterValuesRequest':'MeterValue','values@TransactionData':'TransactionData','hash@SendLocalListRequest':'','hash@SendLocalListResponse':''}
class Wsdl:
    def __init__(s,f):
        r=ET.parse(f).getroot()
        s.ct={c.get('name'):c for c in r.iter(XS+'complexType') if c.get('name')}
        s.st={c.get('name'):c for c in r.iter(XS+'simpleType')}
    def fields(s,name):
        out=[]
        c=s.ct[name]
        seq=c.find(XS+'sequence')
        if seq is None: seq=c.find(XS+'all')
        for e in (seq if seq is not None else []):
            n=e.get('name'); t=(e.get('type') or '').split(':')[-1]
            go=GO.get(n+'@'+name,GO.get(n,n[0].upper()+n[1:]))
            req=e.get('minOccurs','1')!='0'; many=e.get('maxOccurs','1')=='unbounded'
            sub=None; ty={'int':'integer','dateTime':'time','boolean':'boolean'}.get(t,'string')
            if t in s.ct: ty='group' if t=='TransactionData' else 'object'; sub=s.fields(t)
            inner=e.find(XS+'complexType')
            if inner is not None:
                ty='object'; sub=[('',"Value",'string',True,False,'text',None)]
                for a in inner.iter(XS+'attribute'):
                    sub.append((a.get('name'),a.get('name')[0].upper()+a.get('name')[1:],'string',a.get('use')=='required',False,'attr',None))
            out.append((n,go,ty,req,many,'',sub))
        return out
WS={'cp':Wsdl(os.path.join(R,'soap/wsdl/ocpp_centralsystemservice_1.5_final.wsdl')),'cs':Wsdl(os.path.join(R,'soap/wsdl/ocpp_chargepointservice_1.5_final.wsdl'))}
def xemit(fs):
    r='[]XField{'
    for n,g,t,q,many,kind,sub in fs:
        r+='{Name: "%s", Go: "%s", Type: "%s"'%(n,g,t)
        if q: r+=', Req: true'
        if many: r+=', Many: true'
        if kind=='attr': r+=', Attr: true'
        if kind=='text': r+=', Text: true'
        if sub: r+=', Sub: '+xemit(sub)
        r+='}, '
    return r.rstrip(', ')+'}'
def schema(n): return fields(json.load(open(os.path.join(R,'ws/json',n+'.json'))))
o='// Code generated by tools/gen_spec.py; DO NOT EDIT.\n\npackage spec\n\nimport (\n\t"github.com/voltbras/go-ocpp/messages"\n'
for p in ('cpreq','cpresp','csreq','csresp'): o+='\t"github.com/voltbras/go-ocpp/messages/v1x/%s"\n'%p
o+=')\n\n// Msgs are the OCPP messages.\nvar Msgs = []Msg{\n'
for side,l in (('cp',CP),('cs',CS)):
    for a in l:
        o+='\t{Action: "%s", FromCP: %s, V15: %s, Table: %s,\n\t\tNew: func() messages.Request { return &%sreq.%s{} }, NewResp: func() messages.Response { return &%sresp.%s{} },\n\t\tReq: %s,\n\t\tResp: %s%s},\n'%(a,'true' if side=='cp' else 'false','false' if a in NOT15 else 'true','false' if a=='DataTransfer' else 'true',side,a,side,a,emit(schema(a)),emit(schema(a+'Response')),'' if a in NOT15 else ',\n\t\tXReq: %s,\n\t\tXResp: %s'%(xemit(WS[side].fields(a+'Request')),xemit(WS[side].fields(a+'Response'))))
o+='}\n'
dst=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','spec','tables.go')
open(dst,'w').write(o)
os.system('gofmt -w '+dst)
