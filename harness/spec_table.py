"""The consensus specification (phase 0) as data: presets, configurations, containers. Written from the specification,
not from the repository."""
PRESET = {
    "minimal": dict(
        MAX_COMMITTEES_PER_SLOT=4, TARGET_COMMITTEE_SIZE=4, MAX_VALIDATORS_PER_COMMITTEE=2048, SHUFFLE_ROUND_COUNT=10,
        HYSTERESIS_QUOTIENT=4, HYSTERESIS_DOWNWARD_MULTIPLIER=1, HYSTERESIS_UPWARD_MULTIPLIER=5,
        SAFE_SLOTS_TO_UPDATE_JUSTIFIED=2, MIN_DEPOSIT_AMOUNT=10**9, MAX_EFFECTIVE_BALANCE=32 * 10**9,
        EFFECTIVE_BALANCE_INCREMENT=10**9, MIN_ATTESTATION_INCLUSION_DELAY=1, SLOTS_PER_EPOCH=8, MIN_SEED_LOOKAHEAD=1,
        MAX_SEED_LOOKAHEAD=4, EPOCHS_PER_ETH1_VOTING_PERIOD=4, SLOTS_PER_HISTORICAL_ROOT=64,
        MIN_EPOCHS_TO_INACTIVITY_PENALTY=4, EPOCHS_PER_HISTORICAL_VECTOR=64, EPOCHS_PER_SLASHINGS_VECTOR=64,
        HISTORICAL_ROOTS_LIMIT=2**24, VALIDATOR_REGISTRY_LIMIT=2**40, BASE_REWARD_FACTOR=64,
        WHISTLEBLOWER_REWARD_QUOTIENT=512, PROPOSER_REWARD_QUOTIENT=8, INACTIVITY_PENALTY_QUOTIENT=2**25,
        MIN_SLASHING_PENALTY_QUOTIENT=64, PROPORTIONAL_SLASHING_MULTIPLIER=2, MAX_PROPOSER_SLASHINGS=16,
        MAX_ATTESTER_SLASHINGS=2, MAX_ATTESTATIONS=128, MAX_DEPOSITS=16, MAX_VOLUNTARY_EXITS=16,
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT=64, MIN_GENESIS_TIME=1578009600, GENESIS_DELAY=300, SECONDS_PER_SLOT=6,
        SECONDS_PER_ETH1_BLOCK=14, MIN_VALIDATOR_WITHDRAWABILITY_DELAY=256, SHARD_COMMITTEE_PERIOD=64,
        ETH1_FOLLOW_DISTANCE=16, EJECTION_BALANCE=16 * 10**9, MIN_PER_EPOCH_CHURN_LIMIT=4, CHURN_LIMIT_QUOTIENT=65536,
        DEPOSIT_CHAIN_ID=5, DEPOSIT_NETWORK_ID=5),
    "mainnet": dict(
        MAX_COMMITTEES_PER_SLOT=64, TARGET_COMMITTEE_SIZE=128, MAX_VALIDATORS_PER_COMMITTEE=2048, SHUFFLE_ROUND_COUNT=90,
        HYSTERESIS_QUOTIENT=4, HYSTERESIS_DOWNWARD_MULTIPLIER=1, HYSTERESIS_UPWARD_MULTIPLIER=5,
        SAFE_SLOTS_TO_UPDATE_JUSTIFIED=8, MIN_DEPOSIT_AMOUNT=10**9, MAX_EFFECTIVE_BALANCE=32 * 10**9,
        EFFECTIVE_BALANCE_INCREMENT=10**9, MIN_ATTESTATION_INCLUSION_DELAY=1, SLOTS_PER_EPOCH=32, MIN_SEED_LOOKAHEAD=1,
        MAX_SEED_LOOKAHEAD=4, EPOCHS_PER_ETH1_VOTING_PERIOD=64, SLOTS_PER_HISTORICAL_ROOT=8192,
        MIN_EPOCHS_TO_INACTIVITY_PENALTY=4, EPOCHS_PER_HISTORICAL_VECTOR=65536, EPOCHS_PER_SLASHINGS_VECTOR=8192,
        HISTORICAL_ROOTS_LIMIT=2**24, VALIDATOR_REGISTRY_LIMIT=2**40, BASE_REWARD_FACTOR=64,
        WHISTLEBLOWER_REWARD_QUOTIENT=512, PROPOSER_REWARD_QUOTIENT=8, INACTIVITY_PENALTY_QUOTIENT=2**26,
        MIN_SLASHING_PENALTY_QUOTIENT=128, PROPORTIONAL_SLASHING_MULTIPLIER=1, MAX_PROPOSER_SLASHINGS=16,
        MAX_ATTESTER_SLASHINGS=2, MAX_ATTESTATIONS=128, MAX_DEPOSITS=16, MAX_VOLUNTARY_EXITS=16,
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT=16384, MIN_GENESIS_TIME=1606824000, GENESIS_DELAY=604800, SECONDS_PER_SLOT=12,
        SECONDS_PER_ETH1_BLOCK=14, MIN_VALIDATOR_WITHDRAWABILITY_DELAY=256, SHARD_COMMITTEE_PERIOD=256,
        ETH1_FOLLOW_DISTANCE=2048, EJECTION_BALANCE=16 * 10**9, MIN_PER_EPOCH_CHURN_LIMIT=4, CHURN_LIMIT_QUOTIENT=65536,
        DEPOSIT_CHAIN_ID=1, DEPOSIT_NETWORK_ID=1),
}
BYTES_CONST = {
    "minimal": dict(GENESIS_FORK_VERSION="00000001", DEPOSIT_CONTRACT_ADDRESS="1234567890123456789012345678901234567890"),
    "mainnet": dict(GENESIS_FORK_VERSION="00000000", DEPOSIT_CONTRACT_ADDRESS="00000000219ab540356cbb839cbe05303d7705fa"),
}
COMMON = dict(GENESIS_SLOT=0, GENESIS_EPOCH=0, FAR_FUTURE_EPOCH=2**64 - 1, BASE_REWARDS_PER_EPOCH=4,
              DEPOSIT_CONTRACT_TREE_DEPTH=32, JUSTIFICATION_BITS_LENGTH=4)

U64, BOOL = ("uint64",), ("bool",)


def B(n): return ("bytes", n)
def BV(n): return ("bitvec", n)
def BL(n): return ("bitlist", n)
def V(t, n): return ("vector", t, n)
def L(t, n): return ("list", t, n)
def C(n): return ("container", n)


def containers(p):
    P = dict(PRESET[p], **COMMON)
    pend = L(C("PendingAttestation"), P["MAX_ATTESTATIONS"] * P["SLOTS_PER_EPOCH"])
    return {
        "Fork": [("previous_version", B(4)), ("current_version", B(4)), ("epoch", U64)],
        "ForkData": [("current_version", B(4)), ("genesis_validators_root", B(32))],
        "Checkpoint": [("epoch", U64), ("root", B(32))],
        "SigningData": [("object_root", B(32)), ("domain", B(32))],
        "Validator": [("pubkey", B(48)), ("withdrawal_credentials", B(32)), ("effective_balance", U64), ("slashed", BOOL),
                      ("activation_eligibility_epoch", U64), ("activation_epoch", U64), ("exit_epoch", U64),
                      ("withdrawable_epoch", U64)],
        "AttestationData": [("slot", U64), ("index", U64), ("beacon_block_root", B(32)), ("source", C("Checkpoint")),
                            ("target", C("Checkpoint"))],
        "IndexedAttestation": [("attesting_indices", L(U64, P["MAX_VALIDATORS_PER_COMMITTEE"])),
                               ("data", C("AttestationData")), ("signature", B(96))],
        "PendingAttestation": [("aggregation_bits", BL(P["MAX_VALIDATORS_PER_COMMITTEE"])), ("data", C("AttestationData")),
                               ("inclusion_delay", U64), ("proposer_index", U64)],
        "Attestation": [("aggregation_bits", BL(P["MAX_VALIDATORS_PER_COMMITTEE"])), ("data", C("AttestationData")),
                        ("signature", B(96))],
        "Eth1Data": [("deposit_root", B(32)), ("deposit_count", U64), ("block_hash", B(32))],
        "DepositMessage": [("pubkey", B(48)), ("withdrawal_credentials", B(32)), ("amount", U64)],
        "DepositData": [("pubkey", B(48)), ("withdrawal_credentials", B(32)), ("amount", U64), ("signature", B(96))],
        "Deposit": [("proof", V(B(32), P["DEPOSIT_CONTRACT_TREE_DEPTH"] + 1)), ("data", C("DepositData"))],
        "BeaconBlockHeader": [("slot", U64), ("proposer_index", U64), ("parent_root", B(32)), ("state_root", B(32)),
                              ("body_root", B(32))],
        "SignedBeaconBlockHeader": [("message", C("BeaconBlockHeader")), ("signature", B(96))],
        "ProposerSlashing": [("signed_header_1", C("SignedBeaconBlockHeader")),
                             ("signed_header_2", C("SignedBeaconBlockHeader"))],
        "AttesterSlashing": [("attestation_1", C("IndexedAttestation")), ("attestation_2", C("IndexedAttestation"))],
        "VoluntaryExit": [("epoch", U64), ("validator_index", U64)],
        "SignedVoluntaryExit": [("message", C("VoluntaryExit")), ("signature", B(96))],
        "BeaconBlockBody": [("randao_reveal", B(96)), ("eth1_data", C("Eth1Data")), ("graffiti", B(32)),
                            ("proposer_slashings", L(C("ProposerSlashing"), P["MAX_PROPOSER_SLASHINGS"])),
                            ("attester_slashings", L(C("AttesterSlashing"), P["MAX_ATTESTER_SLASHINGS"])),
                            ("attestations", L(C("Attestation"), P["MAX_ATTESTATIONS"])),
                            ("deposits", L(C("Deposit"), P["MAX_DEPOSITS"])),
                            ("voluntary_exits", L(C("SignedVoluntaryExit"), P["MAX_VOLUNTARY_EXITS"]))],
        "BeaconBlock": [("slot", U64), ("proposer_index", U64), ("parent_root", B(32)), ("state_root", B(32)),
                        ("body", C("BeaconBlockBody"))],
        "SignedBeaconBlock": [("message", C("BeaconBlock")), ("signature", B(96))],
        "BeaconState": [("genesis_time", U64), ("genesis_validators_root", B(32)), ("slot", U64), ("fork", C("Fork")),
                        ("latest_block_header", C("BeaconBlockHeader")),
                        ("block_roots", V(B(32), P["SLOTS_PER_HISTORICAL_ROOT"])),
                        ("state_roots", V(B(32), P["SLOTS_PER_HISTORICAL_ROOT"])),
                        ("historical_roots", L(B(32), P["HISTORICAL_ROOTS_LIMIT"])), ("eth1_data", C("Eth1Data")),
                        ("eth1_data_votes", L(C("Eth1Data"), P["EPOCHS_PER_ETH1_VOTING_PERIOD"] * P["SLOTS_PER_EPOCH"])),
                        ("eth1_deposit_index", U64), ("validators", L(C("Validator"), P["VALIDATOR_REGISTRY_LIMIT"])),
                        ("balances", L(U64, P["VALIDATOR_REGISTRY_LIMIT"])),
                        ("randao_mixes", V(B(32), P["EPOCHS_PER_HISTORICAL_VECTOR"])),
                        ("slashings", V(U64, P["EPOCHS_PER_SLASHINGS_VECTOR"])),
                        ("previous_epoch_attestations", pend), ("current_epoch_attestations", pend),
                        ("justification_bits", BV(P["JUSTIFICATION_BITS_LENGTH"])),
                        ("previous_justified_checkpoint", C("Checkpoint")),
                        ("current_justified_checkpoint", C("Checkpoint")), ("finalized_checkpoint", C("Checkpoint"))],
    }


# further instances of the generic types: id -> (C++ type, constructor arguments, specification type)
def LF(t): return "eth::ListFixedSizedParts<%s>" % t
def LV(t): return "eth::ListVariableSizedParts<%s>" % t
def VF(t, n): return "eth::VectorFixedSizedParts<%s, %d>" % (t, n)


def generic(p):
    g = {}
    for n in (1, 4, 8, 20, 32, 33, 48, 64, 65, 96, 121):
        g["Bytes%d" % n] = ("eth::Bytes<%d>" % n, "", B(n))
    g["Slot"] = ("eth::Slot", "", U64)
    g["Boolean"] = ("eth::Boolean", "", BOOL)
    for n in (1, 4, 7, 8, 9, 31, 256, 257, 513):
        g["Bitvector%d" % n] = ("eth::Bitvector<%d>" % n, "", BV(n))
    for n in (1, 5, 8, 9, 256, 257, 600, 2048):
        g["Bitlist%d" % n] = ("eth::Bitlist", str(n), BL(n))
    for n in (1, 2, 4, 5, 9, 13):
        g["VectorSlot%d" % n] = (VF("eth::Slot", n), "", V(U64, n))
    for n in (1, 2, 3, 5, 7):
        g["VectorRoot%d" % n] = (VF("eth::Bytes32", n), "", V(B(32), n))
    g["VectorCheckpoint3"] = (VF("eth::Checkpoint", 3), "", V(C("Checkpoint"), 3))
    g["VectorKey2"] = (VF("eth::Bytes48", 2), "", V(B(48), 2))
    g["VectorBoolean3"] = (VF("eth::Boolean", 3), "", V(BOOL, 3))
    g["VectorBoolean33"] = (VF("eth::Boolean", 33), "", V(BOOL, 33))
    for n in (1, 2, 4, 5, 8, 33, 2048, 2**40):
        g["ListSlot%d" % n] = (LF("eth::Slot"), str(n) + "ul", L(U64, n))
    for n in (1, 2, 3, 4, 5, 16, 2**24):
        g["ListRoot%d" % n] = (LF("eth::Root"), str(n) + "ul", L(B(32), n))
    g["ListKey4"] = (LF("eth::Bytes48"), "4ul", L(B(48), 4))
    g["ListCheckpoint3"] = (LF("eth::Checkpoint"), "3ul", L(C("Checkpoint"), 3))
    g["ListValidator"] = (LF("eth::Validator"), str(2**40) + "ul", L(C("Validator"), 2**40))
    g["ListBoolean40"] = (LF("eth::Boolean"), "40ul", L(BOOL, 40))
    g["ListAttestation2"] = (LV("eth::Attestation"), "2ul", L(C("Attestation"), 2))
    g["ListAttestation5"] = (LV("eth::Attestation"), "5ul", L(C("Attestation"), 5))
    g["ListIndexed3"] = (LV("eth::IndexedAttestation"), "3ul", L(C("IndexedAttestation"), 3))
    g["ListSlashing2"] = (LV("eth::AttesterSlashing"), "2ul", L(C("AttesterSlashing"), 2))
    g["ListPending1024"] = (LV("eth::PendingAttestation"), "1024ul", L(C("PendingAttestation"), 1024))
    return g


def size(p, t, cs=None):
    """encoded size of a type of fixed size, or None"""
    cs = cs or containers(p)
    k = t[0]
    if k == "uint64": return 8
    if k == "bool": return 1
    if k == "bytes": return t[1]
    if k == "bitvec": return (t[1] + 7) // 8
    if k in ("bitlist", "list"): return None
    if k == "vector":
        s = size(p, t[1], cs)
        return None if s is None else s * t[2]
    r = 0
    for _, f in cs[t[1]]:
        s = size(p, f, cs)
        if s is None: return None
        r += s
    return r


def types(p):
    """all types under test: id -> (C++ type, constructor arguments, specification type)"""
    r = {n: ("eth::" + n, "", C(n)) for n in containers(p)}
    r.update(generic(p))
    return r
