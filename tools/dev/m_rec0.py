M=[('d1','flcklistofflock.cc','			if(FLCK_NO_TIMEOUT == timeout_usec){\n				// recover','			if(FLCK_TRY_TIMEOUT != timeout_usec){\n				// recover',['FlListOffLock::dolock']),
]
