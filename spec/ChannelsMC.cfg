SPECIFICATION Spec
CONSTANTS
  Fids = {1, 2, 3}
  Depth = 6
  MemberCap = 2
INVARIANTS OneRowEach RowsFit
PROPERTIES Frozen OwnerSafe ModeratorsByOwner BanHolds JoinByLeave SettingsByOwner RowsStay
CHECK_DEADLOCK FALSE
