// Code generated by shimgen from go.etcd.io/etcd/client/v3; DO NOT EDIT.

package clientv3

import p "go.etcd.io/etcd/client/v3"

type AlarmMember = p.AlarmMember
type AlarmResponse = p.AlarmResponse
type Auth = p.Auth
type AuthConfig = p.AuthConfig
type AuthDisableResponse = p.AuthDisableResponse
type AuthEnableResponse = p.AuthEnableResponse
type AuthRoleAddResponse = p.AuthRoleAddResponse
type AuthRoleDeleteResponse = p.AuthRoleDeleteResponse
type AuthRoleGetResponse = p.AuthRoleGetResponse
type AuthRoleGrantPermissionResponse = p.AuthRoleGrantPermissionResponse
type AuthRoleListResponse = p.AuthRoleListResponse
type AuthRoleRevokePermissionResponse = p.AuthRoleRevokePermissionResponse
type AuthStatusResponse = p.AuthStatusResponse
type AuthUserAddResponse = p.AuthUserAddResponse
type AuthUserChangePasswordResponse = p.AuthUserChangePasswordResponse
type AuthUserDeleteResponse = p.AuthUserDeleteResponse
type AuthUserGetResponse = p.AuthUserGetResponse
type AuthUserGrantRoleResponse = p.AuthUserGrantRoleResponse
type AuthUserListResponse = p.AuthUserListResponse
type AuthUserRevokeRoleResponse = p.AuthUserRevokeRoleResponse
type AuthenticateResponse = p.AuthenticateResponse

const AutoWatchID = p.AutoWatchID

type Client = p.Client

var ClientLogLevel = p.ClientLogLevel

type Cluster = p.Cluster
type Cmp = p.Cmp
type CompactOp = p.CompactOp
type CompactOption = p.CompactOption
type CompactResponse = p.CompactResponse

var Compare = p.Compare

const CompareCreated = p.CompareCreated
const CompareModified = p.CompareModified

type CompareResult = p.CompareResult
type CompareTarget = p.CompareTarget

const CompareValue = p.CompareValue
const CompareVersion = p.CompareVersion

type Config = p.Config
type ConfigSpec = p.ConfigSpec

var ContextError = p.ContextError
var CreateRevision = p.CreateRevision

type DefragmentResponse = p.DefragmentResponse
type DeleteResponse = p.DeleteResponse
type DowngradeAction = p.DowngradeAction

const DowngradeCancel = p.DowngradeCancel
const DowngradeEnable = p.DowngradeEnable

type DowngradeResponse = p.DowngradeResponse

const DowngradeValidate = p.DowngradeValidate

type ErrKeepAliveHalted = p.ErrKeepAliveHalted

var ErrMutuallyExclusiveCfg = p.ErrMutuallyExclusiveCfg
var ErrNoAvailableEndpoints = p.ErrNoAvailableEndpoints
var ErrOldCluster = p.ErrOldCluster

type Event = p.Event

const EventTypeDelete = p.EventTypeDelete
const EventTypePut = p.EventTypePut

var FromCompare = p.FromCompare
var GetPrefixRangeEnd = p.GetPrefixRangeEnd

type GetResponse = p.GetResponse
type GetStreamChan = p.GetStreamChan

var GetStreamToGetResponse = p.GetStreamToGetResponse

type HashKVResponse = p.HashKVResponse

const InvalidWatchID = p.InvalidWatchID

var IsConnCanceled = p.IsConnCanceled
var IsOptsWithFromKey = p.IsOptsWithFromKey
var IsOptsWithPrefix = p.IsOptsWithPrefix

type KV = p.KV
type Lease = p.Lease
type LeaseGrantResponse = p.LeaseGrantResponse
type LeaseID = p.LeaseID
type LeaseKeepAliveResponse = p.LeaseKeepAliveResponse
type LeaseLeasesResponse = p.LeaseLeasesResponse
type LeaseOp = p.LeaseOp
type LeaseOption = p.LeaseOption

var LeaseResponseChSize = p.LeaseResponseChSize

type LeaseRevokeResponse = p.LeaseRevokeResponse
type LeaseStatus = p.LeaseStatus
type LeaseTimeToLiveResponse = p.LeaseTimeToLiveResponse

var LeaseValue = p.LeaseValue

type Maintenance = p.Maintenance

const MaxLeaseTTL = p.MaxLeaseTTL

type Member = p.Member
type MemberAddResponse = p.MemberAddResponse
type MemberListResponse = p.MemberListResponse
type MemberPromoteResponse = p.MemberPromoteResponse
type MemberRemoveResponse = p.MemberRemoveResponse
type MemberUpdateResponse = p.MemberUpdateResponse

var ModRevision = p.ModRevision

type MoveLeaderResponse = p.MoveLeaderResponse

var NewAuth = p.NewAuth
var NewAuthFromAuthClient = p.NewAuthFromAuthClient
var NewClientConfig = p.NewClientConfig
var NewCluster = p.NewCluster
var NewClusterFromClusterClient = p.NewClusterFromClusterClient
var NewKV = p.NewKV
var NewKVFromKVClient = p.NewKVFromKVClient
var NewLease = p.NewLease
var NewLeaseFromLeaseClient = p.NewLeaseFromLeaseClient
var NewMaintenance = p.NewMaintenance
var NewMaintenanceFromMaintenanceClient = p.NewMaintenanceFromMaintenanceClient
var NewOp = p.NewOp
var NewWatchFromWatchClient = p.NewWatchFromWatchClient
var NewWatcher = p.NewWatcher

const NoLease = p.NoLease

type Op = p.Op

var OpCompact = p.OpCompact
var OpDelete = p.OpDelete
var OpGet = p.OpGet

type OpOption = p.OpOption

var OpPut = p.OpPut

type OpResponse = p.OpResponse

var OpTxn = p.OpTxn
var OpWatch = p.OpWatch

type Option = p.Option

const PermRead = p.PermRead
const PermReadWrite = p.PermReadWrite
const PermWrite = p.PermWrite

type Permission = p.Permission
type PermissionType = p.PermissionType
type PutResponse = p.PutResponse
type RangeStreamResponse = p.RangeStreamResponse

var RetryAuthClient = p.RetryAuthClient
var RetryClusterClient = p.RetryClusterClient
var RetryKVClient = p.RetryKVClient
var RetryLeaseClient = p.RetryLeaseClient
var RetryMaintenanceClient = p.RetryMaintenanceClient

type SecureConfig = p.SecureConfig

var SetLogger = p.SetLogger

type SnapshotResponse = p.SnapshotResponse

const SortAscend = p.SortAscend
const SortByCreateRevision = p.SortByCreateRevision
const SortByKey = p.SortByKey
const SortByModRevision = p.SortByModRevision
const SortByValue = p.SortByValue
const SortByVersion = p.SortByVersion
const SortDescend = p.SortDescend
const SortNone = p.SortNone

type SortOption = p.SortOption
type SortOrder = p.SortOrder
type SortTarget = p.SortTarget
type StatusResponse = p.StatusResponse

var StrToPermissionType = p.StrToPermissionType

type Txn = p.Txn
type TxnResponse = p.TxnResponse
type UserAddOptions = p.UserAddOptions

var Value = p.Value
var Version = p.Version

type WatchChan = p.WatchChan
type WatchResponse = p.WatchResponse
type Watcher = p.Watcher

var WithAttachedKeys = p.WithAttachedKeys
var WithCompactPhysical = p.WithCompactPhysical
var WithCountOnly = p.WithCountOnly
var WithCreatedNotify = p.WithCreatedNotify
var WithFilterDelete = p.WithFilterDelete
var WithFilterPut = p.WithFilterPut
var WithFirstCreate = p.WithFirstCreate
var WithFirstKey = p.WithFirstKey
var WithFirstRev = p.WithFirstRev
var WithFragment = p.WithFragment
var WithFromKey = p.WithFromKey
var WithIgnoreLease = p.WithIgnoreLease
var WithIgnoreValue = p.WithIgnoreValue
var WithKeysOnly = p.WithKeysOnly
var WithLastCreate = p.WithLastCreate
var WithLastKey = p.WithLastKey
var WithLastRev = p.WithLastRev
var WithLease = p.WithLease
var WithLimit = p.WithLimit
var WithMaxCreateRev = p.WithMaxCreateRev
var WithMaxModRev = p.WithMaxModRev
var WithMinCreateRev = p.WithMinCreateRev
var WithMinModRev = p.WithMinModRev
var WithPrefix = p.WithPrefix
var WithPrevKV = p.WithPrevKV
var WithProgressNotify = p.WithProgressNotify
var WithRange = p.WithRange
var WithRequireLeader = p.WithRequireLeader
var WithRev = p.WithRev
var WithSerializable = p.WithSerializable
var WithSort = p.WithSort
var WithWatchBufLog = p.WithWatchBufLog
var WithZapLogger = p.WithZapLogger
