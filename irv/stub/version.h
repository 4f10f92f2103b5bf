#pragma once
#define BUILD_COMMIT_ID "irv"
#define PROJECT_VERSION "0"
#define PROJECT_VERSION_BUILD_NO "irv"
#define PROJECT_VERSION_LONG "irv"
#define CCX_RELEASE_VERSION "irv"
#define CCX_WALLET_RELEASE_VERSION "irv"
#define CCX_PAYMENT_SERVICE_RELEASE_VERSION "irv"
#define CCX_MINER_RELEASE_VERSION "irv"
