BEGIN;
ALTER TABLE ULogField ADD COLUMN ValueJson JSON;
COMMIT;
