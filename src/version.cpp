const char* ESMINI_GIT_REV       = "verif";
const char* ESMINI_GIT_TAG       = "verif";
const char* ESMINI_GIT_BRANCH    = "verif";
const char* ESMINI_BUILD_VERSION = "verif";
