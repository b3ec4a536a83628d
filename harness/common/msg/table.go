package main

import f "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

// kinds lists the encoder and decoder of every message kind.
var kinds = []struct {
	name     string
	enc, dec interface{}
}{
	{"InvalidMessageResponse", f.EncodeInvalidMessageResponse, f.DecodeInvalidMessageResponse},
	{"ProtocolChangeRequest", f.EncodeProtocolChangeRequest, f.DecodeProtocolChangeRequest},
	{"ProtocolChangeResponse", f.EncodeProtocolChangeResponse, f.DecodeProtocolChangeResponse},
	{"ClientDHTDiscoverOfferRequest", f.EncodeClientDHTDiscoverOfferRequest, f.DecodeClientDHTDiscoverOfferRequest},
	{"ClientDHTDiscoverOfferResponse", f.EncodeClientDHTDiscoverOfferResponse, f.DecodeClientDHTDiscoverOfferResponse},
	{"ClientDHTDiscoverRequest", f.EncodeClientDHTDiscoverRequest, f.DecodeClientDHTDiscoverRequest},
	{"ClientDHTDiscoverRequestV2", f.EncodeClientDHTDiscoverRequestV2, f.DecodeClientDHTDiscoverRequestV2},
	{"ClientDHTDiscoverResponse", f.EncodeClientDHTDiscoverResponse, f.DecodeClientDHTDiscoverResponse},
	{"ClientDHTDiscoverResponseV2", f.EncodeClientDHTDiscoverResponseV2, f.DecodeClientDHTDiscoverResponseV2},
	{"ClientDHTOfferAckRequest", f.EncodeClientDHTOfferAckRequest, f.DecodeClientDHTOfferAckRequest},
	{"ClientDHTOfferAckResponse", f.EncodeClientDHTOfferAckResponse, f.DecodeClientDHTOfferAckResponse},
	{"ClientEstablishmentRequest", f.EncodeClientEstablishmentRequest, f.DecodeClientEstablishmentRequest},
	{"ClientEstablishmentResponse", f.EncodeClientEstablishmentResponse, f.DecodeClientEstablishmentResponse},
	{"ClientStandardDiscoverOfferRequest", f.EncodeClientStandardDiscoverOfferRequest, f.DecodeClientStandardDiscoverOfferRequest},
	{"ClientStandardDiscoverOfferResponse", f.EncodeClientStandardDiscoverOfferResponse, f.DecodeClientStandardDiscoverOfferResponse},
	{"ClientStandardDiscoverRequest", f.EncodeClientStandardDiscoverRequest, f.DecodeClientStandardDiscoverRequest},
	{"ClientStandardDiscoverRequestV2", f.EncodeClientStandardDiscoverRequestV2, f.DecodeClientStandardDiscoverRequestV2},
	{"ClientStandardDiscoverResponse", f.EncodeClientStandardDiscoverResponse, f.DecodeClientStandardDiscoverResponse},
	{"ClientStandardDiscoverResponseV2", f.EncodeClientStandardDiscoverResponseV2, f.DecodeClientStandardDiscoverResponseV2},
	{"GatewayDHTDiscoverOfferRequest", f.EncodeGatewayDHTDiscoverOfferRequest, f.DecodeGatewayDHTDiscoverOfferRequest},
	{"GatewayDHTDiscoverOfferResponse", f.EncodeGatewayDHTDiscoverOfferResponse, f.DecodeGatewayDHTDiscoverOfferResponse},
	{"GatewayDHTDiscoverRequest", f.EncodeGatewayDHTDiscoverRequest, f.DecodeGatewayDHTDiscoverRequest},
	{"GatewayDHTDiscoverRequestV2", f.EncodeGatewayDHTDiscoverRequestV2, f.DecodeGatewayDHTDiscoverRequestV2},
	{"GatewayDHTDiscoverResponse", f.EncodeGatewayDHTDiscoverResponse, f.DecodeGatewayDHTDiscoverResponse},
	{"GatewayDHTDiscoverResponseV2", f.EncodeGatewayDHTDiscoverResponseV2, f.DecodeGatewayDHTDiscoverResponseV2},
	{"GatewayListDHTOfferAck", f.EncodeGatewayListDHTOfferAck, f.DecodeGatewayListDHTOfferAck},
	{"GatewayListDHTOfferRequest", f.EncodeGatewayListDHTOfferRequest, f.DecodeGatewayListDHTOfferRequest},
	{"GatewayListDHTOfferResponse", f.EncodeGatewayListDHTOfferResponse, f.DecodeGatewayListDHTOfferResponse},
	{"GatewayNotifyProviderGroupCIDOfferSupportRequest", f.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest, f.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest},
	{"GatewayNotifyProviderGroupCIDOfferSupportResponse", f.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse, f.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse},
	{"GatewayPingRequest", f.EncodeGatewayPingRequest, f.DecodeGatewayPingRequest},
	{"GatewayPingResponse", f.EncodeGatewayPingResponse, f.DecodeGatewayPingResponse},
	{"GatewayAdminForceRefreshRequest", f.EncodeGatewayAdminForceRefreshRequest, f.DecodeGatewayAdminForceRefreshRequest},
	{"GatewayAdminForceRefreshResponse", f.EncodeGatewayAdminForceRefreshResponse, f.DecodeGatewayAdminForceRefreshResponse},
	{"GatewayAdminGetReputationRequest", f.EncodeGatewayAdminGetReputationRequest, f.DecodeGatewayAdminGetReputationRequest},
	{"GatewayAdminGetReputationResponse", f.EncodeGatewayAdminGetReputationResponse, f.DecodeGatewayAdminGetReputationResponse},
	{"GatewayAdminInitialiseKeyRequest", f.EncodeGatewayAdminInitialiseKeyRequest, f.DecodeGatewayAdminInitialiseKeyRequest},
	{"GatewayAdminInitialiseKeyRequestV2", f.EncodeGatewayAdminInitialiseKeyRequestV2, f.DecodeGatewayAdminInitialiseKeyRequestV2},
	{"GatewayAdminInitialiseKeyResponse", f.EncodeGatewayAdminInitialiseKeyResponse, f.DecodeGatewayAdminInitialiseKeyResponse},
	{"GatewayAdminListDHTOfferRequest", f.EncodeGatewayAdminListDHTOfferRequest, f.DecodeGatewayAdminListDHTOfferRequest},
	{"GatewayAdminListDHTOfferResponse", f.EncodeGatewayAdminListDHTOfferResponse, f.DecodeGatewayAdminListDHTOfferResponse},
	{"GatewayAdminSetReputationRequest", f.EncodeGatewayAdminSetReputationRequest, f.DecodeGatewayAdminSetReputationRequest},
	{"GatewayAdminSetReputationResponse", f.EncodeGatewayAdminSetReputationResponse, f.DecodeGatewayAdminSetReputationResponse},
	{"UpdateGatewayGroupCIDOfferSupportRequest", f.EncodeUpdateGatewayGroupCIDOfferSupportRequest, f.DecodeUpdateGatewayGroupCIDOfferSupportRequest},
	{"UpdateGatewayGroupCIDOfferSupportResponse", f.EncodeUpdateGatewayGroupCIDOfferSupportResponse, f.DecodeUpdateGatewayGroupCIDOfferSupportResponse},
	{"ProviderPublishDHTOfferRequest", f.EncodeProviderPublishDHTOfferRequest, f.DecodeProviderPublishDHTOfferRequest},
	{"ProviderPublishDHTOfferResponse", f.EncodeProviderPublishDHTOfferResponse, f.DecodeProviderPublishDHTOfferResponse},
	{"ProviderPublishGroupOfferRequest", f.EncodeProviderPublishGroupOfferRequest, f.DecodeProviderPublishGroupOfferRequest},
	{"ProviderPublishGroupOfferResponse", f.EncodeProviderPublishGroupOfferResponse, f.DecodeProviderPublishGroupOfferResponse},
	{"ProviderAdminForceRefreshRequest", f.EncodeProviderAdminForceRefreshRequest, f.DecodeProviderAdminForceRefreshRequest},
	{"ProviderAdminForceRefreshResponse", f.EncodeProviderAdminForceRefreshResponse, f.DecodeProviderAdminForceRefreshResponse},
	{"ProviderAdminGetPublishedOfferRequest", f.EncodeProviderAdminGetPublishedOfferRequest, f.DecodeProviderAdminGetPublishedOfferRequest},
	{"ProviderAdminGetPublishedOfferResponse", f.EncodeProviderAdminGetPublishedOfferResponse, f.DecodeProviderAdminGetPublishedOfferResponse},
	{"ProviderAdminInitialiseKeyRequest", f.EncodeProviderAdminInitialiseKeyRequest, f.DecodeProviderAdminInitialiseKeyRequest},
	{"ProviderAdminInitialiseKeyRequestV2", f.EncodeProviderAdminInitialiseKeyRequestV2, f.DecodeProviderAdminInitialiseKeyRequestV2},
	{"ProviderAdminInitialiseKeyResponse", f.EncodeProviderAdminInitialiseKeyResponse, f.DecodeProviderAdminInitialiseKeyResponse},
	{"ProviderAdminPublishDHTOfferRequest", f.EncodeProviderAdminPublishDHTOfferRequest, f.DecodeProviderAdminPublishDHTOfferRequest},
	{"ProviderAdminPublishDHTOfferResponse", f.EncodeProviderAdminPublishDHTOfferResponse, f.DecodeProviderAdminPublishDHTOfferResponse},
	{"ProviderAdminPublishGroupOfferRequest", f.EncodeProviderAdminPublishGroupOfferRequest, f.DecodeProviderAdminPublishGroupOfferRequest},
	{"ProviderAdminPublishGroupOfferResponse", f.EncodeProviderAdminPublishGroupOfferResponse, f.DecodeProviderAdminPublishGroupOfferResponse},
}
