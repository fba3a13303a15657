def transcript_order(rep): pass
def native_memory_caps(rep): pass
